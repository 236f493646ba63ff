"""C17: tables of strings (Gdbm).  C18: tables of values (Polygdbm)."""
from core import *
from simlib import *
import e_io


def make(b, prop):
    return {"C17": Tables, "C18": PolyTables}[prop](b, prop)


def key(s):
    if s.startswith("G:"):
        _, a, b = s.split(":")
        return data(int(a), int(b))
    return unesc(s)


def brackets(l):
    return b"".join(b"[" + x + b"]" for x in l)


# what "raise N" raises inside a session (otherwise User N)
RAISED = {"20": b"!NotWriter", "21": b"!NotFound", "22": b"!AlreadyThere", "23": b"!Closed", "24": b"!Fail mine", "25": b"!Overflow"}


class T:
    """one opening of a table"""

    def __init__(self, path, mode, fast, pid):
        self.path, self.mode, self.fast, self.pid = path, mode, fast, pid
        self.open = True


class Base(Engine):
    real = ["mgdbm.c", "Gdbm, Polygdbm", "the GNU gdbm library", "runtime system (memory management, extern.c, intern.c)"]
    stub = ["kernel: files, locks, mappings, synchronisation"]
    assumptions = ["the gdbm library itself is part of the environment: after a write it reported as failed, the contents of that table are taken as unknown", "when memory is refused inside gdbm, it may report an item as missing: results are then not compared", "a crash in the middle of a write is not simulated, since the default format of gdbm does not survive it"]
    drv = None

    def prepare(self):
        self.b.compile_driver("gdbm", [VERIF + "/drv/Sim.sml", VERIF + "/drv/GdbmDrv.sml"])
        self.b.compile_driver("poly", [VERIF + "/drv/Sim.sml", VERIF + "/drv/PolyDrv.sml"])
        return ["LOAD /bin/gdbm %s/gdbm 755" % self.b.drv, "LOAD /bin/poly %s/poly 755" % self.b.drv]

    FAULTS = ("err_r", "err_w", "err_open", "err_close", "err_meta", "malloc", "lmalloc")

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        for cl in ("gc", "short_r", "short_w", "sched", "place", "slice"):
            if rng.random() < .4:
                c.cls[cl] = [rng.choice([100, 3000]) if cl == "gc" else rng.choice([3000, 100000, 500000]), 0, 1 << 40, 1 << 40]
        if k % 3 == 2 and not c.meta.get("nofault"):
            cls = rng.choice([("err_r",), ("err_w",), ("lmalloc",), ("malloc",), self.FAULTS])
            if any(" reorg " in x for o in c.ops.values() for x in o):      # gdbm 1.23 reads through a null mapping when mmap is refused to gdbm_reorganize
                cls = [x for x in cls if x != "lmalloc"] or ["malloc"]
            if rng.random() < .6:
                c.D = pick_targets(rng, r0.counts, list(cls), rng.choice([1, 1, 2]))
            else:
                for cl in cls:
                    c.cls[cl] = [rng.choice([3000, 30000, 200000]), 0, 1 << 40, rng.choice([1, 3, 1 << 40])]
            if rng.random() < .2:
                c.opts["disk"] = rng.choice([0, 3000, 20000, 100000])
        return c

    def judge(self, case, r):
        F = sum(r.cls.get(x, (0, 0))[1] for x in self.FAULTS) + r.probes.get("disk_full", 0)
        oom = sum(r.cls.get(x, (0, 0))[1] for x in ("malloc", "lmalloc"))
        names = case.meta["names"]
        pids = {}
        seq = {}
        killed = set()
        files = {p: dict(v) if isinstance(v, dict) else v for p, v in case.meta.get("files", {}).items()}   # path -> dict | "bad" | "empty"; absent: no file
        self.files, self.wild = files, set()
        st = {}
        hist = []                   # sessions: (pid, path, mode, from, to) in positions of the log
        last = {}
        for n, e in enumerate(r.events):
            if e[0] == "START":
                continue
            if e[0] == "X":
                if e[2] in names:
                    for t in st.get(e[1], {}).get("tabs", []):
                        if t.open:
                            t.open = False
                            t.to = n
                            if not (t.mode == "R"):
                                killed.add(t.path)
                    if e[3] != 0 and not (e[2] == case.meta.get("victim")) and not (F and e[3] == 512 and not st.get(e[1])) \
                            and not (oom and e[3] == 512 and r.files.get("/out/%s.err" % e[2]) == b"Fatal error: out of memory.\n"):
                        return ["%s ended with status %s" % (e[2], e[3])]
                continue
            if e[0] != "L":
                continue
            pid, x = e[1], e[2]
            if pid not in st:
                nm = None
                for q in names:
                    if r.pid(q) == pid:
                        nm = q
                if nm is None:
                    continue
                st[pid] = {"nm": nm, "ops": [o.split() for o in case.ops[nm]], "i": 0, "slots": {}, "stack": [], "tabs": [], "fast": False, "lib": None, "at": 0}
            s = st[pid]
            if s["i"] >= len(s["ops"]):
                if x == b"end" or x == b"closed" or x.startswith(b"!GdbmError") and F:
                    continue
                return ["%s: %r after the last operation" % (s["nm"], x)]
            w = s["ops"][s["i"]]
            s["i"] += 1
            where = "%s op %s: " % (s["nm"], " ".join(w)[:80])
            m = self.one(case, r, s, w[1:], x, n, F, oom, st, hist)
            s["at"] = n
            if m:
                return [where + m]
        for nm in names:
            if nm == case.meta.get("victim"):
                continue
            l = r.log(nm)
            if (not l or l[-1] != b"end") and not F:
                return ["%s did not finish: %r" % (nm, l[-1:])]
        return []

    def conflict(self, a, b):
        return a != "R" or b != "R"

    def possible(self, s, path, mode, n, st):
        """could another opening be in the way of this attempt (between s["at"] and n)?"""
        for o in st.values():
            for t in o["tabs"]:
                if t.path == path and self.conflict(mode, t.mode) and (t.open or t.to >= s["at"]):
                    return True
            # an opening under way: its result is not logged yet
            if o is not s and o["i"] < len(o["ops"]):
                w = o["ops"][o["i"]]
                if w[1] == "with" and w[3] == path and self.conflict(mode, w[4]) or w[1] == "withs" and path in w[3::2]:
                    return True
        return False

    def certain(self, s, path, mode, st):
        """is another opening certainly in the way?"""
        for o in st.values():
            for t in o["tabs"]:
                if t.path == path and t.open and self.conflict(mode, t.mode) and (o is s):
                    return True
        return False

    def opened(self, path, mode):
        """what opening gives when nothing is in the way: None or the reason for an error"""
        f = self.files.get(path)
        if path.startswith("/t/none/") or path == "/t/dir" or path == "/t/ro" and mode != "R" or path == "/t/secret":
            return "cannot be opened"
        if mode in "RW" and f is None:
            return "does not exist"
        if f == "bad" and mode != "N":
            return "is no table"
        if f == "empty" and mode == "R":
            return "is empty"
        return None

    def one(self, case, r, s, w, x, n, F, oom, st, hist):
        o = w[0]
        if x == b"!Out_of_memory" and not oom:
            return "Out_of_memory without reason"
        if x == b"!Interrupt":
            return "Interrupt without reason"
        if o in ("with", "withs"):
            pm = list(zip(w[2::2], w[3::2]))
            made = []
            err = sure = None
            for path, mode in pm:
                if path in self.wild and not (mode == "N"):
                    err = err or "?"
                e = self.opened(path, mode)
                if e:
                    sure = sure or e
                if any(p == path and self.conflict(mode, q) for p, q in made) or self.certain(s, path, mode, st):
                    sure = sure or "is already open"
                if self.possible(s, path, mode, n, st):
                    err = err or "?"
                made.append((path, mode))
                if sure:
                    break
            if x == b"+":
                if sure:
                    return "the table was opened although it " + sure
                ts = []
                for j, (path, mode) in enumerate(pm):
                    t = T(path, mode, s["fast"], None)
                    t.frm = s["at"]
                    ts.append(t)
                    s["slots"][int(w[1]) + j] = t
                    f = self.files.get(path)
                    if mode == "N":
                        self.files[path] = {}
                        self.wild.discard(path)
                    elif f is None or f == "empty":
                        self.files[path] = {}
                # nobody else may be in a session now
                for q in st.values():
                    for t in q["tabs"]:
                        for t2 in ts:
                            if t.open and t.path == t2.path and self.conflict(t.mode, t2.mode):
                                t.doubt = True         # it must be over: no operation may follow
                s["tabs"] += ts
                s["stack"].append(ts)
                return None
            for path, mode in pm:      # a failed NEWDB may have emptied the file
                if mode in "NC" and (F or len(pm) > 1):
                    self.wild.add(path)
                    if path not in self.files:
                        self.files[path] = {}
                if path == pm[-1][0] and len(pm) == 1:
                    break
            if x == b"!Out_of_memory" or x.startswith(b"!GdbmError"):
                if not (sure or err or F):
                    return "%s although nothing is in the way" % x.decode()
                if len(x) < 13 and x != b"!Out_of_memory":
                    return "GdbmError without a message"
                return None
            return "%r" % x
        if o in ("end", "raise"):
            if not s["stack"]:
                return None if x == b"?" else "%r outside any session" % x
            ts = s["stack"].pop()
            for t in ts:
                t.open = False
                t.to = n
            want = b"closed" if o == "end" else RAISED.get(w[1]) or b"!User " + w[1].encode()
            if x != want and not (F and x.startswith((b"!GdbmError", b"!Out_of_memory"))):
                return "%r instead of %r" % (x, want)
            return None
        if o == "fast":
            s["fast"] = w[1] == "1"
            return None if x == b"+" else "%r" % x
        if o == "ctl":
            if w[1] == "fds" and not F:
                nt = sum(t.open for t in s["tabs"])
                if int(x) != 3 + nt:
                    return "%s descriptors are open instead of %d" % (x.decode(), 3 + nt)
            if w[1] == "lib" and not any(t.open for t in s["tabs"]):
                if s["lib"] is None:
                    s["lib"] = x
                elif x != s["lib"] and not F:
                    return "memory of the library was left allocated: %s, at first %s" % (x.decode(), s["lib"].decode())
            return None
        if x == b"!Out_of_memory" and o == "cut":
            return None
        if o in ("sleep", "garbage"):
            return None if x == b"+" or oom and x == b"!Out_of_memory" else "%r" % x
        t = s["slots"].get(int(w[1]))
        if t is None:
            return None if x == b"!Fail notable" else "%r" % x
        if not t.open:
            return None if x in (b"!Closed", b"!Out_of_memory") else "%r on a closed table" % x
        if getattr(t, "doubt", False):
            return "the table was opened by another process at the same time"
        if x == b"?":
            return "unknown operation"
        if x == b"!Fail notable" or x == b"!Closed":
            return "%r on an open table" % x
        if x.startswith(b"!GdbmError") or x == b"!Out_of_memory":
            if not F and t.path not in self.wild and not (o == "reorg" and t.mode == "R"):
                return "%s without reason" % x.decode()
            if self.writes(o) and t.mode != "R":
                self.wild.add(t.path)
            return None
        if t.path in self.wild or r.cls.get("lmalloc", (0, 0))[1]:      # gdbm may forget to report that memory was refused
            return None
        return self.op(o, w, t, self.files[t.path], x, oom)


class Tables(Base):
    name = "gdbm"
    groups_quick = 1500

    def writes(self, o):
        return o in ("add", "ins", "del", "reorg")

    def op(self, o, w, t, d, x, oom):
        def same(want, msg=None):
            return None if x == want else "%r instead of %r" % (x[:80], want[:80])
        items = [show(k) + b"|" + show(v) for k, v in d.items()]
        if o in ("add", "ins"):
            if t.mode == "R":
                return same(b"!NotWriter")
            k = key(w[2])
            if o == "add" and k in d:
                return same(b"!AlreadyThere")
            d[k] = data(int(w[3]), int(w[4]))
            return same(b"+")
        if o == "del":
            if t.mode == "R":
                return same(b"!NotWriter")
            return same(b"+" if d.pop(key(w[2]), None) is not None else b"!NotFound")
        if o == "find":
            k = key(w[2])
            return same(show(d[k]) if k in d else b"!NotFound")
        if o == "peek":
            k = key(w[2])
            return same(show(d[k]) if k in d else b"none")
        if o == "has":
            return same(b"yes" if key(w[2]) in d else b"no")
        if o == "num":
            return same(b"%d" % len(d))
        if o == "same":
            return same(b"%d" % len(d))
        if o == "reorg":
            if t.mode == "R" and x.startswith(b"!GdbmError"):
                return None
            return same(b"+")
        if o == "throw":
            return same(b"!User 1" if int(w[2]) < len(d) else b"+")
        want = [show(k) for k in d] if o == "keys" else items
        return self.bag(want, x)

    def bag(self, want, x):
        """x must be the bracketed strings in any order"""
        left = {}
        for k in want:
            k = b"[" + k + b"]"
            left[k] = left.get(k, 0) + 1
        if len(x) != sum(len(k) * c for k, c in left.items()):
            return "%r... (%d bytes) is not the set of the %d entries" % (x[:80], len(x), len(want))
        # entries start and end with brackets, which may also occur inside: try every length
        lens = sorted({len(k) for k in left})
        p = 0
        steps = 0
        stack = []
        while p < len(x):
            nxt = None
            for n in lens:
                c = x[p:p + n]
                if left.get(c):
                    nxt = c
                    break
            if nxt is None:
                return "%r... is not the set of the %d entries" % (x[p:p + 80], len(want))
            left[nxt] -= 1
            p += len(nxt)
        return None

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 1
        kind = rng.choice(["one", "one", "one", "many", "crash"])
        c.meta["files"] = {"/t/bad": "bad", "/t/empty": "empty", "/t/ro": "bad"}
        pre = ["mkdir /t 777", "mkdir /t/dir 777", "gen /t/bad d %d %d" % (rng.randrange(100), rng.choice([5, 100, 5000])), "write /t/empty %", "write /t/ro abc 444", "chown /t/ro 0",
               "chown /t/bad 1000", "chown /t/empty 1000", "write /t/secret abc 600", "chown /t/secret 0"]
        keys = [b"", b"a", b"a\0", b"\0", b"k%d" % rng.randrange(100)] + [b"key%d" % j for j in range(rng.choice([3, 40]))]
        K = lambda: esc(rng.choice(keys)) if rng.random() < .85 else "G:%d:%d" % (rng.randrange(5), rng.choice([20, 300, 5000]))
        big = rng.random() < .3
        VAL = lambda: "%d %d" % (rng.randrange(1000), rng.choice([0, 1, 3, 10, 50, 200] + ([1000, 5000, 60000] if big else [])))
        goods = ["/t/a", "/t/b", "/t/c"]

        def ops(t):
            x = rng.random()
            if x < .2:
                return "ins %d %s %s" % (t, K(), VAL())
            if x < .35:
                return "add %d %s %s" % (t, K(), VAL())
            if x < .5:
                return "%s %d %s" % (rng.choice(["find", "peek", "has"]), t, K())
            if x < .65:
                return "del %d %s" % (t, K())
            if x < .8:
                return rng.choice(["num", "keys", "items", "same", "nest"]) + " %d" % t
            if x < .88:
                return "%s %d %d" % (rng.choice(["app", "map", "fold"]), t, rng.choice([0, 0, 500]))
            if x < .92:
                return "throw %d %d" % (t, rng.choice([0, 1, 5]))
            if x < .95:
                return "reorg %d" % t if kind != "many" else "num %d" % t     # a file replaced while another process is opening it: gdbm leaves that one with the old file
            return "garbage 3000"

        def session(o, depth, names, slots, quiet=False):
            """append one session to o"""
            s = slots[0] = (slots[0] + 1) % 6
            if rng.random() < .12 and not quiet:
                l = [(rng.choice(names), rng.choice("RWCNC")) for _ in range(2)]
                o.append("withs %d %s" % (s, " ".join("%s %s" % x for x in l)))
                mine = [s, s + 1]
            else:
                bad = rng.random() < .1 and not quiet
                f = rng.choice(["/t/bad", "/t/empty", "/t/ro", "/t/none/x", "/t/dir", "/t/secret"]) if bad else rng.choice(names)
                o.append("with %d %s %s" % (s, f, rng.choice("RCCCCWN" if depth or quiet else "RCCCCCWN")))
                mine = [s]
            for _ in range(rng.choice([1, 5, 15, 30])):
                x = rng.random()
                if x < .05 and depth < 2:
                    session(o, depth + 1, names, slots, quiet)
                elif x < .1 and slots[0] > 0:
                    o.append(ops(rng.randrange(0, 7)))
                else:
                    o.append(ops(rng.choice(mine)))
            if rng.random() < .1:
                o.append("ctl fds")
            o.append("end" if rng.random() < .8 else "raise %d" % rng.choice([0, 8, 20, 21, 22, 23, 24, 25]))
        O = {}
        V = lambda: e_io.VARIANTS[0]
        if kind == "one":
            o = ["ctl fds", "ctl lib"]
            slots = [0]
            if rng.random() < .4:
                o.append("fast 1")
            for _ in range(rng.choice([1, 2, 4])):
                session(o, 0, goods[:rng.choice([1, 2])], slots)
                o.append("ctl lib") if rng.random() < .8 else None
            O["a"] = o + ["ctl fds", "ctl lib", "ctl !verify"]
            c.script = pre + ["run name=a in=null -- %s /bin/gdbm" % rng.choice(e_io.VARIANTS)]
        elif kind == "many":
            names = goods[:rng.choice([1, 2])]
            for nm in ["a", "b", "c"][:rng.choice([2, 3])]:
                o = ["ctl lib"]
                for _ in range(rng.choice([1, 3, 6])):
                    s = rng.randrange(4)
                    o.append("with %d %s %s" % (s, rng.choice(names), rng.choice("RRCCN")))
                    for _ in range(rng.choice([0, 2, 6])):
                        o.append(ops(s))
                    o.append("sleep %d" % rng.choice([1, 100]))
                    o.append(rng.choice(["items %d", "num %d", "nest %d"]) % s)
                    o.append("end")
                    o.append("sleep %d" % rng.choice([1, 50, 300]))
                O[nm] = o + ["ctl lib", "ctl !verify"]
            c.script = pre + ["spawn name=%s in=null -- %s /bin/gdbm" % (nm, V()) for nm in O] + ["waitall"]
        else:
            fast = rng.random() < .3
            power = rng.random() < .5     # what a closed table holds is synchronised
            c.meta["victim"] = "a"
            c.meta["nofault"] = power
            o = ["fast %d" % fast]
            slots = [0]
            if rng.random() < .5:
                session(o, 0, ["/t/a"], slots, True)
            o.append("with 7 /t/a %s" % rng.choice("CCWN"))
            for _ in range(rng.choice([1, 5, 20])):
                o.append(ops(7))
            if power:
                o.append("end")
            o.append("sleep 2000000000")
            o += ["ins 7 never 1 5", "end"]
            O["a"] = o
            O["b"] = ["ctl lib", "with 1 /t/a R", "same 1", "items 1", "end", "with 2 /t/a C"] + [ops(2) for _ in range(5)] + ["items 2", "end", "ctl lib", "ctl fds"]
            c.script = pre + ["spawn name=a in=null -- %s /bin/gdbm" % V(), "sleep 1000000000000", "kill a 9"] + (["powerfail /t/a"] if power else []) + ["run name=b in=null -- %s /bin/gdbm" % V()]
        for nm, o in O.items():
            c.ops[nm] = ["%d %s" % (j + 1, x) for j, x in enumerate(o)]
        c.meta["names"] = list(O)
        c.meta["kind"] = kind
        return c


# ---------------------------------------------------------------- values

def norm(s, raw=False):
    """the printed form of a value given in the notation of PolyDrv (which differs in data and shared pairs)"""
    pos = [0]

    def num():
        j = s.index(";", pos[0])
        v = int(s[pos[0]:j])
        pos[0] = j + 1
        return v

    def dat():
        a = num()
        return data(a, num())

    def one():
        c = s[pos[0]]
        pos[0] += 1
        if c in "if":
            return c.encode() + b"%d;" % num()
        if c in "sw":
            return c.encode() + show(dat()) + b";"
        if c in "lv":
            n = num()
            return c.encode() + b"%d;" % n + b"".join(one() for _ in range(n))
        if c == "p":
            a = one()
            return b"p" + a + one()
        if c == "d":
            a = one()
            return b"d" + a if raw else b"p" + a + a
        if c == "r":
            return b"r" + one()
        if c == "c":
            return b"c" + one()
        if c == "x":
            n = num()
            return b"x%d;" % n + show(dat()) + b";"
        return c.encode()
    return one()


def sh(n):
    return n if len(n) <= 120 else b"#" + fp(n)


class PolyTables(Base):
    name = "polygdbm"
    groups_quick = 1500

    def writes(self, o):
        return o in ("add", "ins", "del", "reorg", "cut")

    REF = (b"!Fail intern", b"!Fail mlval_string", b"!Size", b"!Fail ")

    def op(self, o, w, t, d, x, oom):
        """d: normal form of the key -> normal form of the value, or None: a part of a value"""
        def same(want):
            return None if x == want else "%r instead of %r" % (x[:80], want[:80])
        broken = any(v is None for v in d.values())
        if o in ("add", "ins", "cut"):
            if t.mode == "R":
                return same(b"!NotWriter")
            k = self.K(w[2])
            if o == "add" and k in d:
                return same(b"!AlreadyThere")
            d[k] = norm(w[3]) if o != "cut" else None
            return same(b"+")
        if o == "codec":
            return same(sh(norm(w[2])))
        if o == "del":
            if t.mode == "R":
                return same(b"!NotWriter")
            k = self.K(w[2])
            if k in d:
                del d[k]
                return same(b"+")
            return same(b"!NotFound")
        if o in ("find", "peek"):
            k = self.K(w[2])
            if k in d and d[k] is None:
                return None if x.startswith(self.REF) else "a damaged entry is read as %r" % x[:60]
            return same(sh(d[k]) if k in d else b"!NotFound" if o == "find" else b"none")
        if o == "has":
            return same(b"yes" if self.K(w[2]) in d else b"no")
        if o == "num":
            return same(b"%d" % len(d))
        if o == "reorg":
            if t.mode == "R" and x.startswith(b"!GdbmError"):
                return None
            return same(b"+")
        if o == "keys":
            return self.bag([sh(k[0]) for k in d], x)
        if broken:
            if o == "throw" and x == b"!User 1":
                return None
            return None if x.startswith(self.REF) else "%r although an entry is damaged" % x[:60]
        if o == "same":
            return same(b"%d" % len(d))
        if o == "throw":
            return same(b"!User 1" if int(w[2]) < len(d) else b"+")
        return self.bag([sh(k[0]) + b"|" + sh(v) for k, v in d.items()], x)

    bag = Tables.bag

    def judge(self, case, r):
        self.raw = False
        m = Base.judge(self, case, r)
        if m and case.meta.get("kshare"):
            # explained by the known finding, keys with different sharing being different keys?
            self.raw = True
            if not Base.judge(self, case, r):
                return ["keys that differ in sharing only are different keys: " + m[0]]
        return m

    def known_match(self, bad, known):
        if bad[0]["meta"].get("kshare") and bad[1][0][1].startswith("keys that differ in sharing only"):
            for k in known:
                if k.get("id") == "polygdbm-sharing":
                    return k["id"]
        return None

    def K(self, s):
        """what identifies a key"""
        return (norm(s), norm(s, True) if self.raw else 0)

    def one(self, case, r, s, w, x, n, F, oom, st, hist):
        if w[0] == "codec":
            want = sh(norm(w[1]))
            return None if x == want or oom and x == b"!Out_of_memory" else "%r instead of %r" % (x[:80], want[:80])
        return Base.one(self, case, r, s, w, x, n, F, oom, st, hist)

    def value(self, rng, depth, iskey):
        x = rng.random()
        if depth <= 0 or x < .35:
            k = rng.choice("iiisszfxn" + ("" if iskey else "w"))
            if k == "i":
                return "i%d;" % rng.choice([0, 1, -1, 5, 63, 64, -64, 127, 128, -128, 255, 256, 32767, 32768, -32769, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 61, 2 ** 62 - 1, 1 - 2 ** 62])
            if k in "sw":
                return k + "%d;%d;" % (rng.randrange(50), rng.choice([0, 1, 3, 7, 8, 30, 31, 32, 33, 64, 100, 255, 256, 300]))
            if k == "f":
                return "f%d;" % rng.choice([0, 8, -8, 1, 12345, -3])
            if k == "x":
                return "x%d;%d;%d;" % (rng.choice([1, -9]), rng.randrange(9), rng.choice([0, 3, 40]))
            return k
        k = rng.choice("lpvp" + ("" if iskey else "rdc"))
        if k in "lv":
            n = rng.choice([0, 1, 2, 3, 7] + ([] if iskey else [20]))
            return k + "%d;" % n + "".join(self.value(rng, depth - (1 if n < 5 else 3), iskey) for _ in range(n))
        if k == "p":
            return "p" + self.value(rng, depth - 1, iskey) + self.value(rng, depth - 1, iskey)
        if k == "r":
            v = self.value(rng, depth - 1, iskey)
            return "r" + (v if v[0] != "p" else "i1;")
        return k + self.value(rng, depth - 1, iskey)

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 1
        keys = [self.value(rng, rng.choice([0, 0, 1, 2, 3]), True) for _ in range(rng.choice([3, 8, 20]))]
        if rng.random() < .04:
            c.meta["kshare"] = c.meta["known"] = True
            for _ in range(3):
                x = rng.choice(["i%d;", "s%d;5;", "l2;i%d;z", "ps%d;7;z"]) % rng.randrange(90)
                keys += ["p" + x + x, "d" + x]
        K = lambda: rng.choice(keys)
        VAL = lambda: self.value(rng, rng.choice([0, 1, 2, 3, 5]), False)

        def ops(t):
            x = rng.random()
            if x < .25:
                return "ins %d %s %s" % (t, K(), VAL())
            if x < .35:
                return "add %d %s %s" % (t, K(), VAL())
            if x < .55:
                return "%s %d %s" % (rng.choice(["find", "peek", "has"]), t, K())
            if x < .63:
                return "del %d %s" % (t, K())
            if x < .78:
                return rng.choice(["num", "keys", "items", "same", "nest"]) + " %d" % t
            if x < .86:
                return "%s %d %d" % (rng.choice(["app", "map", "fold"]), t, rng.choice([0, 0, 500]))
            if x < .88:
                return "throw %d %d" % (t, rng.choice([0, 1, 5]))
            if x < .9:
                return "reorg %d" % t
            if x < .92:
                return "cut %d %s %s %d" % (t, K(), VAL(), rng.choice([0, 1, 300, 500, 900, 999, 1000]))
            if x < .97:
                return "codec " + VAL()
            return "garbage 3000"
        o = ["ctl lib"]
        s = 0
        for _ in range(rng.choice([1, 2, 4])):
            s = (s + 1) % 6
            o.append("with %d /t/%s %s" % (s, rng.choice("aab"), rng.choice("RCCCCN")))
            for _ in range(rng.choice([1, 5, 15, 30])):
                o.append(ops(s))
            o.append("end" if rng.random() < .8 else rng.choice(["raise 3", "raise 20", "raise 23", "raise 24"]))
            if rng.random() < .5:
                o.append("ctl lib")
        o += ["ctl lib", "ctl !verify"]
        c.script = ["mkdir /t 777", "run name=a in=null -- %s /bin/poly" % rng.choice(e_io.VARIANTS)]
        c.ops["a"] = ["%d %s" % (j + 1, x) for j, x in enumerate(o)]
        c.meta["names"] = ["a"]
        return c
