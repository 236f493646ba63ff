"""C15: sockets.  C16: select."""
from core import *
from simlib import *
import e_io
import errno, socket


def make(b, prop):
    return {"C15": Sockets, "C16": Select}[prop](b, prop)


def piece(w):
    """send kind seed n ofs size -> bytes or None (Subscript)"""
    seed, n, o, z = int(w[0]), int(w[1]), int(w[2]), w[3]
    z = n - o if z == "-" else int(z)
    if o < 0 or z < 0 or o + z > n:
        return None
    return data(seed, n)[o:o + z]


def take(l):
    """length of what show() printed"""
    return len(l) - 1 if l[:1] == b"=" else int(l[1:].split(b":")[0])


class Base(Engine):
    real = ["msocket.c, Socket", "runtime system (signals.c, memory management)", "Word8Vector, Word8Array, Process"]
    stub = ["kernel: sockets and a network with delay, loss, duplication, reordering and splitting"]
    assumptions = ["local stream and datagram sockets are reliable and ordered, Internet datagrams may be lost, duplicated and reordered", "out-of-band data and routing are not simulated"]

    def prepare(self):
        self.b.compile_driver("sock", [VERIF + "/drv/Sim.sml", VERIF + "/drv/SockDrv.sml"])
        return ["LOAD /bin/sock %s/sock 755" % self.b.drv]

    def benign(self, rng, c, p=.4):
        for cl in ("gc", "short_r", "short_w", "eintr", "sched", "place", "slice", "netdelay", "netchunk"):
            if rng.random() < p:
                c.cls[cl] = [rng.choice([100, 3000]) if cl == "gc" else rng.choice([3000, 100000, 500000]), 0, 1 << 40, 1 << 40]


class Sockets(Base):
    name = "sockets"
    groups_quick = 3000

    NAMED = "EPROTONOSUPPORT EMFILE ENFILE EACCES ENOBUFS EBADF ENOTSOCK EOPNOTSUPP EWOULDBLOCK EADDRNOTAVAIL EADDRINUSE EINVAL EAFNOSUPPORT EISCONN ETIMEDOUT ECONNREFUSED ENETUNREACH EINPROGRESS EALREADY ENOENT EINTR EMSGSIZE ENOTCONN EPIPE ECONNRESET".split()

    def errs(self, case, r, log, oom):
        """every failure is reported under the name of the error, and nothing else is"""
        for (w, x), (w2, e) in zip(log, log[1:]):
            if w2[1:] != ["ctl", "lasterr"] or w[1] == "ctl":
                continue
            x, e = x.decode("latin-1"), int(e) if e.isdigit() else 0
            name = errno.errorcode.get(e, "")
            name = {"EAGAIN": "EWOULDBLOCK", "ENOTSUP": "EOPNOTSUPP"}.get(name, name)
            say = "op %s: %r where the system's error was %s" % (" ".join(w), x[:100], name or "none")
            if x in ("!Interrupt", "!Out_of_memory", "!Fail nosock"):
                continue
            ok = not x.startswith("!")
            if w[1] == "ready" and x == "!Fail EINTR" and name == "EINTR":
                continue                # the wait itself was interrupted
            ad = next((a for a in w if a[:2] in ("U:", "I:")), None)
            if w[1] == "getaddr" or ad and ad[:2] == "I:" and x != "none":
                h = w[2] if w[1] == "getaddr" else ad.split(":")[1]
                try:
                    want = socket.inet_ntoa(socket.inet_aton(unesc(h).decode()))
                except OSError:
                    want = "!Fail Invalid address"
                if w[1] == "getaddr" or w[1] == "addr" or want[0] == "!":
                    if x != (want if w[1] != "addr" or want[0] == "!" else "I:%s:%s" % (want, ad.split(":")[2])):
                        return ["op %s: %r instead of %r" % (" ".join(w), x[:100], want)]
                    continue
            if ad and ad[:2] == "U:" and x != "none":
                if len(ad) - 2 >= 108 - (0 if w[1] != "x" else 1):
                    if x != "!Fail ENAMETOOLONG":
                        return ["op %s: %r instead of ENAMETOOLONG" % (" ".join(w), x[:100])]
                    continue
                if w[1] == "addr":
                    if x != ad:
                        return ["op %s: %r" % (" ".join(w), x[:100])]
                    continue
            if x == "!Subscript":
                z = w[w.index("send") + 3:] if "send" in w else w[w.index("sendto") + 4:] if "sendto" in w else None
                if e or z is not None and piece(z) is not None or z is None:
                    return [say]
                continue
            if e == 0 or e == errno.EINTR and ok:
                if not ok:
                    return [say]
                continue
            if ok or not x.startswith("!Fail ") or name in self.NAMED and x[6:] != name and not (w[1] == "close"):
                return [say]
            if name not in self.NAMED and x[6:] not in (name, "EUNSPECIFIED") and w[1] != "close":
                return [say]
        return []

    def sendargs(self, rng, small=False):
        n = rng.choice([0, 1, 5, 64, 100, 1000] + ([] if small else [4096, 20000, 33000]))
        if rng.random() < .12:
            return "%d %d %d %s" % (rng.randrange(1000), n, rng.choice([-1, n + 1, 0, n]), rng.choice(["-", "-1", str(n + 1), "1", "0"]))
        if rng.random() < .5:
            return "%d %d 0 -" % (rng.randrange(1000), n)
        o = rng.randrange(n + 1)
        return "%d %d %d %s" % (rng.randrange(1000), n, o, rng.choice(["-", str(rng.randrange(n - o + 1))]))

    def tryop(self, rng, n, t):
        """receive a datagram if there is one: into a vector, a part of an array, looking only"""
        x = rng.random()
        if x < .5:
            return "tryf 0 %d %d%s" % (n, t, rng.choice(["", " w", " p"]))
        k = rng.choice("abq")
        if rng.random() < .1:
            return "tryf 0 0 %d %s %d %d %s" % (t, k, n, rng.choice([-1, n + 1]), "-")
        o = rng.choice([0, 1, 10])
        if rng.random() < .3:
            return "tryf 0 %d %d %s %d %d -" % (n, t, k, o + n, o)
        return "tryf 0 %d %d %s %d %d %d" % (n, t, k, o + n + rng.choice([0, 1, 20]), o, n)

    def recvop(self, rng, s):
        x = rng.random()
        n = rng.choice([0, 1, 7, 64, 100, 1000, 5000])
        if x < .5:
            return "recv %d %s %d" % (s, rng.choice("vwp"), n)
        o = rng.randrange(n + 1)
        if rng.random() < .1:
            return "recva %d %s %d %d %s" % (s, rng.choice("abp"), n, rng.choice([-1, n + 1]), "-")
        return "recva %d %s %d %d %s" % (s, rng.choice("abp"), n, o, rng.choice(["-", str(rng.randrange(n - o + 1))]))

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 1
        c.opts["sockcap"] = rng.choice([100, 1000, 8192])
        kind = rng.choice(["pair", "pair", "pair", "multi", "dgram", "dgram", "errs"])
        c.meta["kind"] = kind
        ops = {}
        dom = rng.choice("ui")
        small = [2]                     # how many copies of the variant there are

        def V():
            v = rng.choice(e_io.VARIANTS)
            if v != e_io.VARIANTS[0]:
                small[0] -= 1
                if small[0] < 0:
                    return e_io.VARIANTS[0]
            return v
        pre = ["mkdir /s 777"]
        if kind == "pair":
            srv = "U:/s/" + rng.choice(["srv", "n" * 90, "n" * 102, "n" * 103, "n" * 104]) if dom == "u" else "I:127.0.0.1:%d" % rng.choice([5000, 1, 65535])
            a = ["mk 0 %ss" % dom, "bind 0 %s" % srv, "listen 0 %d" % rng.choice([1, 5]), "acceptr 0 1"]
            b = ["mk 1 %ss" % dom]
            if rng.random() < .5:
                b.append("bind 1 " + ("U:/s/" + rng.choice(["c", "m" * 104]) if dom == "u" else "I:127.0.0.1:6000"))
            b.append("connectr 1 %s 200" % srv)
            sides = [a, b]
            for _ in range(rng.choice([0, 1, 3])):
                k = rng.randrange(2)
                n = rng.choice([1, 10, 500, 3000, 30000])
                sides[k].append("sendall 1 %d %d" % (rng.randrange(1000), n))
                sides[1 - k].append("recvall 1 %d %d" % (n, rng.choice([1 if n < 600 else 50, 64, 1000, 9999])))
            k = rng.randrange(2)
            for turn in range(rng.choice([1, 2])):
                for _ in range(rng.choice([1, 4, 10])):
                    sides[k].append("send 1 %s %s" % (rng.choice("vawb"), self.sendargs(rng)))
                    if rng.random() < .15:
                        sides[k].append("garbage 3000")
                sides[k].append("shut 1 s")
                for _ in range(rng.choice([0, 2, 8])):
                    sides[1 - k].append(self.recvop(rng, 1))
                sides[1 - k].append("recvall 1 100000000 %d" % rng.choice([100, 5000]))
                sides[1 - k].append("recv 1 v 10")
                k = 1 - k
            for s in sides:
                s += ["close 1", "send 1 v 1 10 0 -", "recv 1 v 5"]
            a += ["close 0"]
            for s in sides:
                s += ["ctl fds", "ctl !verify"]
            ops = {"a": a, "b": b}
            c.script = pre + ["spawn name=a in=null -- %s /bin/sock" % V(), "spawn name=b in=null -- %s /bin/sock" % V(), "waitall"]
        elif kind == "multi":
            srv = "U:/s/srv" if dom == "u" else "I:127.0.0.1:5000"
            k = rng.choice([2, 3, 4])
            a = ["mk 0 %ss" % dom, "bind 0 %s" % srv, "listen 0 %d" % rng.choice([1, 2, 10])]
            for j in range(k):
                a.append("acceptr 0 %d" % (j + 1))
                if rng.random() < .3:
                    a.append("garbage 2000")
            for j in rng.sample(range(k), k):
                a += ["recvall %d 1000000 %d" % (j + 1, rng.choice([50, 4000])), "sendall %d %d %d" % (j + 1, 100 + j, rng.choice([1, 100, 3000])), "close %d" % (j + 1)]
            ops["a"] = a + ["ctl fds", "ctl !verify"]
            c.script = pre + ["spawn name=a in=null -- %s /bin/sock" % V()]
            for j in range(k):
                nm = "b%d" % j
                ad = "U:/s/c%d" % j if dom == "u" else "I:127.0.0.%d:%d" % (j + 1, 6000 + j)
                ops[nm] = ["mk 1 %ss" % dom, "bind 1 " + ad, "connectr 1 %s 2000" % srv, "sendall 1 %d %d" % (j + 1, rng.choice([1, 50, 500, 3000])), "shut 1 s", "recvall 1 1000000 %d" % rng.choice([64, 5000]), "close 1"]
                c.script.append("spawn name=%s in=null -- %s /bin/sock" % (nm, V()))
            c.script.append("waitall")
        elif kind == "errs":
            # one program that does everything, most of it wrong; each operation followed by what the system last refused
            good = ["U:/s/p", "U:/s/q", "U:/s/r", "I:127.0.0.1:5000", "I:127.0.0.1:5001"]
            bad = ["U:/s/" + "n" * rng.choice([103, 104, 120]), "U:/none/x", "U:/ro/x", "U:", "I:127.0.0.1:0", "I:nohost:5", "I:256.1.1.1:9", "I::7", "I:1.2.3:4"]
            A = lambda: rng.choice(good) if rng.random() < .8 else rng.choice(bad)
            S = lambda: rng.randrange(5)
            o = []
            if rng.random() < .3:            # a connection whose other end goes away
                ad = rng.choice(good)
                c.opts["sockcap"] = 100000
                o += ["mk 0 %ss" % ad[0].lower(), "bind 0 " + ad, "listen 0 5", "mk 1 %ss" % ad[0].lower(), "connect 1 " + ad, "sleep 1000000", "ready 0 r accept 0 2"]
                o += ["send 2 v %s" % self.sendargs(rng, True)] * (rng.random() < .4) + [rng.choice(["close 2", "shut 2 r", "shut 2 b", "shut 1 s"]), "sleep 1000000"]
                o += ["ready 1 w send 1 %s %s" % (rng.choice("vawb"), self.sendargs(rng, True)) if rng.random() < .7 else "ready 1 w sendto 1 %s %s %s" % (rng.choice("vawb"), ad, self.sendargs(rng, True)) for _ in range(rng.choice([1, 3]))]
            for _ in range(rng.choice([10, 25, 60])):
                x = rng.choice(["mk", "mk", "bind", "bind", "listen", "connect", "connect", "accept", "recv", "recvf", "recva", "send", "send", "sendto", "shut", "close", "addr", "getaddr"])
                s = S()
                o.append({"mk": lambda: "mk %d %s%s" % (s, rng.choice("ui"), rng.choice("ssd")), "bind": lambda: "bind %d %s" % (s, A()), "listen": lambda: "listen %d %d" % (s, rng.choice([1, 5])), "connect": lambda: "connect %d %s" % (s, A()),
                          "accept": lambda: "ready %d r accept %d %d" % (s, s, S()), "recv": lambda: "ready %d r recv %d %s %d" % (s, s, rng.choice("vwp"), rng.choice([0, 1, 100])), "recvf": lambda: "ready %d r recvf %d %s %d" % (s, s, rng.choice("vwp"), rng.choice([0, 1, 100])),
                          "recva": lambda: "ready %d r recva %d %s 50 %d -" % (s, s, rng.choice("abp"), rng.choice([0, 1, 50])), "send": lambda: "ready %d w send %d %s %s" % (s, s, rng.choice("vawb"), self.sendargs(rng, True)),
                          "sendto": lambda: "ready %d w sendto %d %s %s %s" % (s, s, rng.choice("vawb"), A(), rng.choice([self.sendargs(rng, True), self.sendargs(rng, True), "1 70000 0 -"])), "shut": lambda: "shut %d %s" % (s, rng.choice("rsb")), "close": lambda: "close %d" % s,
                          "addr": lambda: "addr " + A(), "getaddr": lambda: "getaddr %s 5" % rng.choice(["127.0.0.1", "1.2.3.4", "1.2", "0x7f.1", "255.255.255.255", "256.1.1.1", "nohost", "1.2.3.4.5", "01.02.03.04", "-"])}[x]())
            ops["a"] = ["ctl lasterr"] + [y for z in o for y in (z, "ctl lasterr")] + ["ctl !verify"]
            c.script = pre + ["mkdir /ro 555", "spawn name=a in=null -- %s /bin/sock" % V(), "waitall"]
        else:
            k = rng.choice([2, 2, 3])
            ad = ["U:/s/d%d" % j if dom == "u" else "I:127.0.0.1:%d" % (7000 + j) for j in range(k)]
            if dom == "u" and rng.random() < .3:
                ad[0] = "U:/s/" + "x" * rng.choice([102, 103, 104])
            anon = k > 2 and rng.random() < .4
            for j in range(k):
                nm = "ab"[j] if j < 2 else "c"
                o = ["mk 0 %sd" % dom]
                if not (anon and j == k - 1):
                    o.append("bind 0 " + ad[j])
                o.append("sleep 1000")
                for _ in range(rng.choice([3, 8, 20])):
                    t = rng.choice([x for x in range(k) if x != j and not (anon and x == k - 1)])
                    x = rng.random()
                    if x < .55:
                        o.append("sendto 0 %s %s %s" % (rng.choice("vawb"), ad[t], self.sendargs(rng, True) if rng.random() < .95 else "%d 40000 0 -" % rng.randrange(1000)))
                    elif not (anon and j == k - 1):
                        o.append(self.tryop(rng, rng.choice([0, 5, 100, 5000]), rng.choice([0, 100, 100000])))
                if not (anon and j == k - 1):
                    o += ["sleep 500000"] + ["tryf 0 5000 200000"] * 70
                o += ["ctl fds", "ctl !verify"]
                ops[nm] = o
            c.opts["dgramq"] = rng.choice([64, 64, 3]) if dom == "i" else 64
            c.meta.update(dom=dom, ad=ad, anon=anon)
            c.script = pre + ["spawn name=%s in=null -- %s /bin/sock" % (nm, V()) for nm in ops] + ["waitall"]
        for nm, o in ops.items():
            c.ops[nm] = ["%d %s" % (j + 1, x) for j, x in enumerate(o)]
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c)
        if c.meta["kind"] == "dgram":
            for cl in ("netloss", "netdup"):
                if rng.random() < .4:
                    c.cls[cl] = [rng.choice([50000, 300000]), 0, 1 << 40, 1 << 40]
        if k % 3 == 2:
            c.meta["deadlock_ok"] = True
            if rng.random() < .5:
                c.D = pick_targets(rng, r0.counts, ["err_net", "malloc"], rng.choice([1, 2]))
            else:
                for cl in ("err_net", "malloc"):
                    if rng.random() < .6:
                        c.cls[cl] = [rng.choice([3000, 50000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
            if rng.random() < .3:
                v = rng.choice([s.split("name=")[1].split()[0] for s in c.script if s.startswith("spawn")])
                c.script = c.script[:-1] + ["sleep %d" % rng.choice([10 ** 5, 10 ** 6, 10 ** 7]), "kill %s %d" % (v, rng.choice([2, 9]))] + c.script[-1:]
        return c

    def judge(self, case, r):
        F = lambda *k: sum(r.cls.get(x, (0, 0))[1] for x in k)
        kill = any(s.startswith("kill") for s in case.script)
        dist = F("err_net", "malloc") or kill
        names = [s.split("name=")[1].split()[0] for s in case.script if s.startswith("spawn")]
        logs = {}
        for nm in names:
            l = r.log(nm)
            logs[nm] = list(zip([o.split() for o in case.ops[nm]], l))
            if len(l) < len(case.ops[nm]):           # killed, or still in this operation
                w = case.ops[nm][len(l)].split()
                if w[1] in ("send", "sendall"):
                    logs[nm].append((w, b"!Interrupt"))
            if (r.status(nm) or 0) & 127 == 13:
                return ["%s was killed by SIGPIPE after %r" % (nm, l[-1:])]
            if (r.status(nm) != 0 or not l or l[-1] != b"end") and not (dist or r.stop == "deadlock"):
                return ["%s ended with status %s after %r" % (nm, r.status(nm), l[-1:])]
            for w, x in logs[nm]:
                if x == b"!Interrupt" and not (kill or dist or len(l) < len(case.ops[nm])) or x == b"!Out_of_memory" and not F("malloc"):
                    return ["%s op %s raised %s" % (nm, w[0], x.decode())]
                if x.startswith(b"OUTSIDE"):
                    return ["%s op %s: bytes outside the given part of the array were changed" % (nm, " ".join(w))]
                if w[1:3] == ["ctl", "fds"] and not dist and int(x) != 3 + (case.meta["kind"] != "pair"):
                    return ["%s: %s descriptors are open at the end" % (nm, x.decode())]
        if case.meta["kind"] == "errs":
            return self.errs(case, r, logs["a"], F("malloc"))
        if case.meta["kind"] == "dgram":
            return self.dgram(case, r, logs, dist)
        if case.meta["kind"] == "multi":
            return self.multi(case, r, logs, dist)
        # a pair of streams
        for me, you in (("a", "b"), ("b", "a")):
            m = self.stream(case, r, logs[me], logs[you], "1", "1", dist, me)
            if m:
                return [m]
        for w, x in logs["a"]:
            if w[1] == "acceptr" and not x.startswith(b"!"):
                bd = [o for o, y in logs["b"] if o[1] == "bind" and y == b"+"]
                want = bd[0][3].encode() if bd else None
                if want and x != want:
                    return ["accept gives the address %r instead of %r" % (x, want)]
                if not want and not (x == b"U:" or x.startswith(b"I:127.0.0.1:")):
                    return ["accept gives the address %r of a client without one" % x]
        if not dist:
            for nm in ("a", "b"):
                for w, x in logs[nm]:
                    if w[1] in ("mk", "bind", "listen", "connectr", "shut", "close") and x != b"+":
                        return ["%s op %s: %s" % (nm, " ".join(w)[:60], x.decode())]
        return []

    def sent(self, log, slot):
        """bytes the calls reported as sent; and whether more may have gone out; or an error message"""
        out = b""
        fuzzy = None
        isopen = True
        for w, x in log:
            if w[1] == "close" and w[2] == slot and x == b"+":
                isopen = False
            if w[1] == "send" and w[2] == slot:
                if not isopen or x == b"!Fail nosock":
                    continue
                p = piece(w[4:])
                if p is None:
                    if x != b"!Subscript" and x not in (b"!Interrupt", b"!Out_of_memory", b"!Fail nosock"):
                        return None, None, "op %s: %s although the part is outside the buffer" % (" ".join(w), x.decode())
                elif x.startswith(b"!"):
                    if x == b"!Interrupt" and fuzzy is None:
                        fuzzy = (len(out), p)
                else:
                    k = int(x)
                    if k < 0 or k > len(p):
                        return None, None, "op %s: %d bytes sent of %d" % (" ".join(w), k, len(p))
                    out += p[:k]
            elif w[1] == "sendall" and w[2] == slot:
                p = data(int(w[3]), int(w[4]))
                if x.startswith(b"!"):
                    fuzzy = fuzzy or (len(out), p)
                else:
                    out += p
        return out, fuzzy, None

    def stream(self, case, r, rlog, slog, rs, ss, dist, who):
        src, fuzzy, m = self.sent(slog, ss)
        if m:
            return m
        pos = 0
        reset = r.probes.get("connection_reset") or dist
        for w, x in rlog:
            if w[1] not in ("recv", "recva", "recvall") or w[2] != rs:
                continue
            if x.startswith(b"!"):
                if w[1] == "recva":
                    n, o, z = int(w[4]), int(w[5]), w[6]
                    z = n - o if z == "-" else int(z)
                    if (o < 0 or z < 0 or o + z > n) and x == b"!Subscript":
                        continue
                if not reset and x not in (b"!Fail nosock", b"!Fail EINTR"):
                    return "%s op %s: %s" % (who, " ".join(w), x.decode())
                if w[1] == "recvall" and not x.startswith(b"!Fail nosock"):
                    return None            # some of the data were dropped with the exception
                if x in (b"!Interrupt", b"!Out_of_memory"):
                    return None
                continue
            eof = False
            l = x
            if w[1] == "recvall":
                eof = l[:1] == b"E"
                l = l[1:]
                lim = int(w[3])
            elif w[1] == "recv":
                lim = int(w[4])
            else:
                n, o, z = int(w[4]), int(w[5]), w[6]
                lim = n - o if z == "-" else int(z)
                if o < 0 or lim < 0 or o + lim > n:
                    return "%s op %s: no Subscript" % (who, " ".join(w))
            k = take(l)
            if k > lim:
                return "%s op %s: %d bytes" % (who, " ".join(w), k)
            if fuzzy and pos + k > fuzzy[0]:
                return None                # beyond what is known
            if l != show(src[pos:pos + k]) :
                return "%s op %s: received %r, which is not what was sent at position %d of %d" % (who, " ".join(w), l[:60], pos, len(src))
            if w[3] != "p" or w[1] == "recvall":
                pos += k
            if (eof or k == 0 and lim > 0) and pos != len(src) and not reset and not fuzzy:
                return "%s op %s: end of stream after %d of %d bytes" % (who, " ".join(w), pos, len(src))
            if w[1] == "recvall" and not eof and k < lim:
                return "%s op %s: %d bytes only" % (who, " ".join(w), k)
        return None

    def multi(self, case, r, logs, dist):
        addr = {}
        for nm in logs:
            for w, x in logs[nm]:
                if w[1] == "bind" and nm != "a" and x == b"+":
                    addr[w[3].encode()] = nm
                if not dist and x.startswith(b"!"):
                    return ["%s op %s: %s" % (nm, " ".join(w), x.decode())]
        for w, x in logs["a"]:
            if w[1] == "acceptr" and not x.startswith(b"!"):
                nm = addr.get(x)
                if nm is None:
                    if dist:
                        continue
                    return ["accept gives the address %r, which no client has" % x]
                m = self.stream(case, r, logs["a"], logs[nm], w[3], "1", dist, "a") or self.stream(case, r, logs[nm], logs["a"], "1", w[3], dist, nm)
                if m:
                    return [m]
                del addr[x]
        return []

    def dgram(self, case, r, logs, dist):
        ad = case.meta["ad"]
        names = list(logs)
        F = lambda *k: sum(r.cls.get(x, (0, 0))[1] for x in k)
        wild = any(x == b"!Interrupt" for nm in logs for w, x in logs[nm])
        for j, nm in enumerate(names):
            if case.meta["anon"] and j == len(names) - 1:
                continue
            me = ad[j].encode()
            avail = {}
            for k, other in enumerate(names):
                frm = b"U:" if case.meta["anon"] and k == len(names) - 1 and case.meta["dom"] == "u" else b"*" if case.meta["anon"] and k == len(names) - 1 else ad[k].encode()
                for w, x in logs[other]:
                    if w[1] != "sendto":
                        continue
                    p = piece(w[5:])
                    if p is None:
                        if x != b"!Subscript" and x not in (b"!Interrupt", b"!Out_of_memory", b"!Fail nosock"):
                            return ["%s op %s: %s although the part is outside the buffer" % (other, " ".join(w), x.decode())]
                        continue
                    if x.startswith(b"!"):
                        if not dist and x not in (b"!Fail EINTR", b"!Fail ENOENT", b"!Fail ECONNREFUSED"):
                            return ["%s op %s: %s" % (other, " ".join(w), x.decode())]
                        continue
                    if int(x) != len(p):
                        return ["%s op %s: %s sent of %d" % (other, " ".join(w), x.decode(), len(p))]
                    if w[4].encode() == me:
                        avail.setdefault(b"*" if dist else frm, []).append(p)
            got = {}
            every = {q: list(v) for q, v in avail.items()}
            peeked = None
            for w, x in logs[nm]:
                if w[1] != "tryf" or x == b"none":
                    continue
                kind = w[5] if len(w) > 5 else "v"
                if len(w) > 6 and not 0 <= int(w[7]) <= int(w[6]):
                    if x not in (b"!Subscript", b"!Interrupt", b"!Out_of_memory", b"!Fail nosock", b"!Fail EINTR"):
                        return ["%s op %s: %s although the part is outside the array" % (nm, " ".join(w), x.decode())]
                    continue
                if x.startswith(b"!"):
                    if x == b"!Fail EINTR" or dist:
                        continue
                    return ["%s op %s: %s" % (nm, " ".join(w), x.decode())]
                a, _, d = x.partition(b" ")
                if peeked and not dist and not wild:
                    if a != peeked[0]:
                        return ["%s op %s: a datagram from %r after looking at one from %r" % (nm, " ".join(w), a, peeked[0])]
                    if not any(show(q[:peeked[1]]) == peeked[2] and show(q[:int(w[3])]) == d for l in every.values() for q in l):
                        return ["%s op %s: %r is not the datagram looked at before (%r)" % (nm, " ".join(w), d[:60], peeked[2][:60])]
                peeked = (a, int(w[3]), d) if kind in "pq" else None
                lim = int(w[3])
                lst = avail.get(a)
                if dist or lst is None and a.startswith(b"I:127.0.0.1:"):    # bind may have failed
                    a = b"*"
                    lst = avail.get(b"*")
                if lst is None:
                    if wild or dist:
                        continue
                    return ["%s op %s: a datagram from %r, which has sent none" % (nm, " ".join(w), a)]
                hit = [q for q in range(len(lst)) if show(lst[q][:lim]) == d]
                if kind in "pq":
                    if not hit and not wild or hit and hit[0] != 0 and case.meta["dom"] == "u" and not dist:
                        return ["%s op %s: looked at %r, which is not the next datagram" % (nm, " ".join(w), d[:60])]
                    continue
                if case.meta["dom"] == "u" and hit and not dist:
                    if hit[0] != 0:
                        return ["%s op %s: a datagram on a local socket overtook another or that one was lost" % (nm, " ".join(w))]
                    del lst[0]
                    continue
                # a datagram cut short may be any of several: match them up
                g = got.setdefault(a if a in avail else b"*", [])
                g.append((lim, d, hit))
                if wild or F("netdup") and hit:
                    continue
                owner = {}

                def place(u, seen):
                    for q in g[u][2]:
                        if q not in seen:
                            seen.add(q)
                            if q not in owner or place(owner[q], seen):
                                owner[q] = u
                                return True
                    return False
                if not all(place(u, set()) for u in range(len(g))):
                    return ["%s op %s: %r was never sent by %r (or more often than sent)" % (nm, " ".join(w), d[:60], a)]
            if not dist and not F("netloss", "netdup") and not r.probes.get("datagram_overrun") and r.stop != "deadlock":
                lost = sum(len(v) for v in avail.values())
                if lost and case.meta["dom"] == "u":
                    return ["%s: %d datagrams were never received" % (nm, lost)]
        return []


class Select(Base):
    name = "select"
    groups_quick = 3500

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 1
        c.opts["sockcap"] = rng.choice([100, 1000, 8192])
        kind = rng.choice(["one", "one", "one", "loop", "intr"])
        c.meta["kind"] = kind
        small = [2]                     # how many copies of the variant there are

        def V():
            v = rng.choice(e_io.VARIANTS)
            if v != e_io.VARIANTS[0]:
                small[0] -= 1
                if small[0] < 0:
                    return e_io.VARIANTS[0]
            return v
        pre = ["mkdir /s 777"]
        ops = {}
        if kind == "loop":
            dom = rng.choice("ui")
            srv = "U:/s/srv" if dom == "u" else "I:127.0.0.1:5000"
            n = rng.choice([1, 4, 12])
            b = ["mk 1 %ss" % dom, "connectr 1 %s 200" % srv]
            for _ in range(n):
                b += ["sendall 1 %d %d" % (rng.randrange(1000), rng.choice([1, 50, 500, 3000])), "sleep %d" % rng.choice([0, 10, 1000, 10 ** 6])]
            b += ["shut 1 s", "sleep 100000"]
            ops = {"a": ["mk 0 %ss" % dom, "bind 0 " + srv, "listen 0 3", "select 0 0 0 -", "acceptr 0 1", "selloop 1 %s %d" % (rng.choice(["-", "50", "2000", "1500000"]), rng.choice([1, 64, 5000])), "ctl !verify"], "b": b}
            if sum(int(x.split()[3]) for x in b if x.startswith("sendall")) > 700:
                ops["a"][5] = ops["a"][5].rsplit(" ", 1)[0] + " 1000"
        else:
            ops["a"] = a = []
            slots = {}
            fds = [3]
            np = rng.randrange(1, 5)
            free = list(range(16))
            room = {}
            for p in range(np):
                dom = rng.choice("ui")
                t = rng.choice("ssd")
                s0 = free.pop(0)
                ad = "U:/s/x%d" % p if dom == "u" else "I:127.0.0.1:%d" % (5000 + p)
                a.append("mk %d %s%s" % (s0, dom, t))
                a.append("bind %d %s" % (s0, ad))
                slots[s0] = [dom + t, ad, None]
                if t == "s":
                    a.append("listen %d 5" % s0)
                    slots[s0][2] = "L"
                    for _ in range(rng.randrange(0, 3)):
                        if len(free) < 3:
                            break
                        s1 = free.pop(0)
                        a += ["mk %d %ss" % (s1, dom), "connect %d %s" % (s1, ad)]
                        slots[s1] = [dom + t, ad, "C"]
                        if rng.random() < .7:
                            s2 = free.pop(0)
                            a += ["acceptr %d %d" % (s0, s2)]
                            slots[s2] = [dom + t, ad, "A"]
            order = list(slots)

            def some():
                k = rng.randrange(0, len(order) + 1)
                s = [rng.choice(order) for _ in range(k)] if rng.random() < .2 else rng.sample(order, k)
                return ",".join(map(str, s)) or "-"
            for _ in range(rng.choice([3, 8, 16])):
                x = rng.random()
                s = rng.choice(order)
                d = slots[s]
                if x < .3 and d[0][1] == "s" and d[2] != "L":
                    n = min(rng.choice([1, 10, 90, 100]), room.setdefault(s, 100))    # more could block
                    room[s] -= n
                    a.append("send %d v %d %d 0 -" % (s, rng.randrange(1000), n))
                elif x < .4 and d[0][1] == "d":
                    a.append("sendto %d v %s %d %d 0 -" % (s, d[1], rng.randrange(1000), rng.choice([0, 1, 90])))
                elif x < .45 and d[2] in "CA" if d[2] else False:
                    a.append("shut %d %s" % (s, rng.choice("rsb")))
                elif x < .5:
                    a.append("close %d" % s)
                    order.remove(s)
                    if not order:
                        break
                elif x < .55:
                    a.append("garbage 3000")
                a.append("ctl advance 200000000")
                a.append("ctl sockets")
                a.append("select %s %s %s %d" % (some(), some(), some(), rng.choice([0, 0, 1, 1000, 1500000, 3000000, -1, -1500000, -3000000])))
            if kind == "intr":
                if not order:
                    return None
                a += ["ctl sockets", "select - - %s %s" % (some(), rng.choice(["-", "5000000000"]))]
            a += ["ctl !verify"]
        if rng.random() < .2:
            c.opts["maxfd"] = 300
            ops["a"].insert(0, "filler %d" % rng.choice([30, 58, 62, 64, 100, 225]))
        for nm, o in ops.items():
            c.ops[nm] = ["%d %s" % (j + 1, x) for j, x in enumerate(o)]
        c.script = pre + ["spawn name=%s in=null -- %s /bin/sock" % (nm, V()) for nm in ops]
        if kind == "intr":
            c.script += ["sleep 600000000000", "kill a 2"]
        c.script.append("waitall")
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c)
        if c.meta["kind"] != "loop":
            c.cls.pop("netdelay", None)
        if k % 3 == 2:
            if rng.random() < .5:
                c.D = pick_targets(rng, r0.counts, ["malloc"], 1)
            else:
                c.cls["malloc"] = [50000, 0, 1 << 40, rng.choice([1, 3])]
        return c

    def judge(self, case, r):
        F = lambda *k: sum(r.cls.get(x, (0, 0))[1] for x in k)
        oom = F("malloc")
        l = r.log("a")
        st = r.status("a")
        if st != 0 or not l or l[-1] != b"end":
            if oom and st == 512:
                return []
            return ["the program ended with status %s after %r" % (st, l[-1:])]
        ps = list(zip([o.split() for o in case.ops["a"]], l))
        kind = case.meta["kind"]
        if kind == "loop":
            if oom:
                return []
            src = b"".join(data(int(w.split()[3]), int(w.split()[4])) for w in case.ops["b"] if w.split()[1] == "sendall")
            for w, x in ps:
                if w[1] == "select":
                    if x != b"!Fail EINTR" and not x.endswith(b" R0, W E"):
                        return ["op %s select: %r although a connection was waiting" % (w[0], x)]
                if w[1] == "selloop":
                    if x != b"E" + show(src):
                        return ["op %s selloop: %r instead of %d bytes" % (w[0], x[:60], len(src))]
            return []
        # one process: the state of the sockets is known before each wait
        fd = {}
        used = {0, 1, 2}
        truth = {}
        ints = 0
        for w, x in ps:
            o, a = w[1], w[2:]

            def new():
                k = 0
                while k in used:
                    k += 1
                used.add(k)
                return k
            exc = x.startswith(b"!")
            if x == b"!Interrupt":
                ints += 1
            if o == "mk" and not exc:
                fd[a[0]] = new()
            elif o == "filler":
                if exc:
                    return [] if oom else ["op %s: %r" % (w[0], x)]
                for _ in range(int(a[0])):
                    new()
            elif o == "acceptr" and not exc:
                fd[a[1]] = new()
            elif o == "close" and not exc:
                used.discard(fd.pop(a[0]))
            elif o == "ctl" and a[0] == "sockets":
                truth = {}
                for t in x.split():
                    k, f = t.split(b":")[:2]
                    truth[int(k)] = f
            elif o == "select":
                if oom and (exc or True):
                    if exc:
                        if x == b"!Out_of_memory":
                            return []
                    # an allocation that failed in an earlier step may have lost a descriptor
                    return []
                sets = [[] if q == "-" else q.split(",") for q in a[:3]]
                if exc:
                    if x == b"!Fail EINTR" and F("eintr"):
                        continue
                    if x == b"!Fail nosock" and any(s not in fd for q in sets for s in q):
                        continue
                    if x == b"!Interrupt" and kind == "intr" and w is ps[-2][0]:
                        continue
                    return ["op %s: %s" % (" ".join(w), x.decode())]
                t0, t1, R, W, E = x.split(b" ")
                wantR = [s for s in sets[0] if truth.get(fd.get(s), b"00")[:1] == b"1"]
                wantW = [s for s in sets[1] if truth.get(fd.get(s), b"00")[1:] == b"1"]
                for nm, got, want in (("reading", R[1:], wantR), ("writing", W[1:], wantW), ("exceptions", E[1:], [])):
                    if got.decode() != "".join(s + "," for s in want):
                        return ["op %s: ready for %s: %r instead of %r" % (" ".join(w), nm, got.decode(), ",".join(want))]
                el = int(t1) - int(t0)
                tmo = a[3]
                if kind == "intr" and tmo in ("-", "5000000000"):
                    return ["op %s: select returned without a reason after %d ns" % (" ".join(w), el)]
                lim = max(0, int(tmo)) * 1000
                if wantR or wantW:
                    if el > 1000000:
                        return ["op %s: waited %d ns although a socket was ready" % (" ".join(w), el)]
                else:
                    if el < lim:
                        return ["op %s: returned with nothing after %d of %d ns" % (" ".join(w), el, lim)]
                    if el > lim + 1000000:
                        return ["op %s: waited %d ns instead of %d" % (" ".join(w), el, lim)]
            elif exc and not oom and x not in (b"!Fail EINTR", b"!Fail EPIPE", b"!Fail ENOTCONN", b"!Fail ECONNRESET", b"!Fail nosock", b"!Fail ECONNREFUSED", b"!Fail EAGAIN", b"!Fail EWOULDBLOCK") and not (o == "recv"):
                return ["op %s: %s" % (" ".join(w), x.decode())]
        if kind == "intr" and ints != 1 and not oom and not F("eintr"):
            return ["Interrupt was raised %d times for one signal" % ints]
        return []
