"""Talking to the simulator: cases, results, minimisation."""
import resource, os, sys, json, subprocess, random, time, hashlib, copy

H = "0123456789abcdef"
_esc = {i: (chr(i) if 32 < i < 127 and i != 37 else "%" + H[i >> 4] + H[i & 15]) for i in range(256)}


def esc(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "".join([_esc[c] for c in b]) or "%"


def unesc(s):
    if s == "%":
        return b""
    if "%" not in s:
        return s.encode("latin-1")
    parts = s.split("%")
    out = [parts[0].encode("latin-1")]
    for p in parts[1:]:
        out.append(bytes([int(p[:2], 16)]))
        out.append(p[2:].encode("latin-1"))
    return b"".join(out)


class Case:
    """One run.  Everything in it is data; to_text() is what the simulator reads."""
    FIELDS = ("seed", "replay", "opts", "cls", "D", "script", "ops", "env", "meta")

    def __init__(self, seed=1):
        self.seed = seed
        self.replay = False
        self.opts = {}
        self.cls = {}         # class -> [ppm, from, to, maxn]
        self.D = []           # [pid, class, n, value]
        self.script = []
        self.ops = {}         # name -> [line]
        self.env = {}
        self.meta = {}        # for the oracle

    def clone(self):
        c = Case()
        for f in Case.FIELDS:
            setattr(c, f, copy.deepcopy(getattr(self, f)))
        return c

    def to_json(self):
        return {f: getattr(self, f) for f in Case.FIELDS}

    @staticmethod
    def from_json(j):
        c = Case()
        for f in Case.FIELDS:
            if f in j:
                setattr(c, f, j[f])
        return c

    def to_text(self):
        l = ["seed %d" % self.seed]
        if self.replay:
            l.append("replay 1")
        for k, v in sorted(self.opts.items()):
            l.append("opt %s %s" % (k, v))
        for k, v in sorted(self.cls.items()):
            l.append("cls %s %s" % (k, " ".join(str(x) for x in v)))
        for d in self.D:
            l.append("D %d %s %d %d" % tuple(d))
        for k, v in sorted(self.env.items()):
            l.append("env %s %s" % (k, esc(v)))
        for s in self.script:
            l.append("script " + s)
        for k, v in sorted(self.ops.items()):
            for s in v:
                l.append("op %s %s" % (k, s))
        return "\n".join(l) + "\n"


class Result:
    def __init__(self, raw):
        self.raw = raw
        self.logs = {}        # pid -> [bytes]
        self.alllogs = []     # (pid, bytes) in order
        self.exits = []       # (pid, name, status)
        self.starts = {}      # name -> pid
        self.files = {}       # path -> bytes (None: missing)
        self.D = []
        self.viol = []        # (class, message)
        self.cls = {}         # class -> (asked, fired)
        self.counts = {}      # pid -> {class: n}
        self.names = {}       # pid -> name
        self.probes = {}
        self.marks = {}
        self.hash = None
        self.stats = {}
        self.blocked = []
        self.alive = []
        self.fail = None
        self.events = []      # other lines, in order, as word lists
        for line in raw.decode("latin-1").split("\n"):
            if not line:
                continue
            k, _, rest = line.partition(" ")
            if k == "L":
                pid, _, s = rest.partition(" ")
                pid = int(pid)
                b = unesc(s)
                self.logs.setdefault(pid, []).append(b)
                self.alllogs.append((pid, b))
                self.events.append(("L", pid, b))
            elif k == "D":
                w = rest.split()
                self.D.append([int(w[0]), w[1], int(w[2]), int(w[3])])
            elif k == "F":
                p, _, s = rest.partition(" ")
                self.files[unesc(p).decode("latin-1")] = unesc(s)
            elif k == "FN":
                self.files[unesc(rest).decode("latin-1")] = None
            elif k in ("FD", "FX"):
                self.events.append((k,) + tuple(rest.split()))
                if k == "FX":
                    p, _, s = rest.partition(" ")
                    self.files[unesc(p).decode("latin-1")] = unesc(s)
            elif k == "X":
                w = rest.split()
                self.exits.append((int(w[0]), w[1], int(w[2])))
                self.events.append(("X", int(w[0]), w[1], int(w[2])))
            elif k == "V":
                w = rest.split(" ", 2)
                self.viol.append((w[1], w[2] if len(w) > 2 else "", int(w[0])))
            elif k == "C":
                w = rest.split()
                self.cls[w[0]] = (int(w[1]), int(w[2]))
            elif k == "N":
                w = rest.split()
                pid = int(w[0])
                self.names[pid] = w[1]
                self.counts[pid] = {a.split("=")[0]: int(a.split("=")[1]) for a in w[2:]}
            elif k == "M":
                w = rest.split()
                self.marks[w[1]] = {a.split("=")[0]: int(a.split("=")[1]) for a in w[2:]}
            elif k == "P":
                w = rest.split()
                self.probes[w[0]] = int(w[1])
            elif k == "H":
                self.hash = rest
            elif k == "S":
                for a in rest.split():
                    x, _, y = a.partition("=")
                    self.stats[x] = y if x == "stop" else int(y)
            elif k == "BLOCKED":
                w = rest.split()
                self.blocked.append((int(w[0]), w[1]))
            elif k == "ALIVE":
                w = rest.split()
                self.alive.append((int(w[0]), w[1]))
            elif k == "START":
                w = rest.split()
                self.starts[w[1]] = int(w[0])
                self.events.append(("START", int(w[0]), w[1]))
            elif k == "SIMFAIL":
                self.fail = rest
            elif k in ("END", "ENDRUN"):
                pass
            else:
                self.events.append((k,) + tuple(rest.split()))
        self.stop = self.stats.get("stop", "?")

    def status(self, name):
        pid = self.starts.get(name)
        for p, n, s in self.exits:
            if p == pid:
                return s
        return None

    def log(self, name):
        return self.logs.get(self.starts.get(name), [])

    def pid(self, name):
        return self.starts.get(name)


class Sim:
    """A simulator process serving cases."""

    def __init__(self, simrun, loads):
        self.simrun, self.loads = simrun, loads
        self.p = None
        self.runs = 0
        self.ns = 0

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([self.simrun], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_DATA, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)))
        for l in self.loads:
            self.p.stdin.write((l + "\n").encode("latin-1"))
        self.p.stdin.flush()

    def run(self, case):
        if self.p is None:
            self.start()
        t = case.to_text().encode("latin-1") if isinstance(case, Case) else case
        self.p.stdin.write(b"CASE %d\n" % len(t) + t)
        self.p.stdin.flush()
        h = self.p.stdout.readline()
        if not h.startswith(b"RESULT "):
            raise RuntimeError("simulator died: %r" % h)
        raw = self.p.stdout.read(int(h.split()[1]))
        r = Result(raw)
        self.runs += 1
        self.ns += r.stats.get("ns", 0)
        return r

    def close(self):
        if self.p:
            try:
                self.p.stdin.write(b"QUIT\n")
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()[:7], "big")


# ---- the data functions of drv/Sim.sml
def data(seed, n):
    s97 = seed % 97 + 1
    s31 = seed * 31
    return bytes([((s31 + i * 7 + (i // 13) * 5 + (i // 251) * s97) % 251 + (i // 1000)) % 256 for i in range(n)])


def text(seed, n):
    s97 = seed % 97 + 1
    s31 = seed * 31
    r = bytearray(n)
    for i in range(n):
        k = (s31 + i * 7 + (i // 13) * 5 + (i // 251) * s97) % 97
        r[i] = 10 if k == 0 else 32 + (k % 95)
    return bytes(r)


def fp(b):
    h = 7
    for c in b:
        h = (h * 131 + c + 1) % 1000003
    return b"%d:%d" % (len(b), h)


def show(b):
    return b"=" + b if len(b) <= 48 else b"#" + fp(b)


def minimise(case, fails, budget=150, deadline=None):
    """case already carries its decisions (replay mode).  Greedy reduction of the
    decisions and of every op list and of the script, keeping `fails(case)`."""
    tries = [0]

    def ok(c):
        if tries[0] >= budget or (deadline and time.time() > deadline):
            return False
        tries[0] += 1
        try:
            return fails(c)
        except Exception:
            return False

    def shrink(get, put, cur):
        lst = get(cur)
        n = 2
        while len(lst) >= 1:
            size = max(1, len(lst) // n)
            changed = False
            i = 0
            while i < len(lst):
                cand = lst[:i] + lst[i + size:]
                c = cur.clone()
                put(c, cand)
                if ok(c):
                    cur, lst, changed = c, cand, True
                    n = max(2, n - 1)
                else:
                    i += size
                if tries[0] >= budget:
                    return cur
            if not changed:
                if size == 1:
                    break
                n = min(len(lst), n * 2)
        return cur

    for _ in range(2):
        before = json.dumps(case.to_json())
        case = shrink(lambda c: c.D, lambda c, v: setattr(c, "D", v), case)
        for k in sorted(case.ops):
            if k in case.meta.get("fixed_ops", ()):
                continue
            case = shrink(lambda c: c.ops[k], lambda c, v: c.ops.__setitem__(k, v), case)
        if before == json.dumps(case.to_json()) or tries[0] >= budget:
            break
    return case


def gc_rate(rng, count, budget=300):
    """A class line for collections at random: over the whole run, or at every allocation of a stretch of it."""
    B = 1 << 40
    count = max(int(count), 1)
    if rng.random() < .3:
        n = rng.choice([20, 100, budget])
        a = rng.randrange(count)
        return [1000000, a, a + n, B]
    ppm = rng.choice([x for x in (30, 300, 3000, 20000, 200000) if count * x / 1e6 <= budget] or [max(1, int(budget * 1e6 / count))])
    return [ppm, 0, B, B]
