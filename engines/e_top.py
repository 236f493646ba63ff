"""C22: the interactive system."""
import re
from core import *
from simlib import *
import e_io, e_comp


def make(b, prop):
    return Top(b, prop)


TOP = "/lib/mosmltop -stdlib /lib"
UNB = "unbound"


class Top(e_comp.Base):
    name = "toplevel"
    groups_quick = 450
    faulted = 4
    FAULTS = ("pollsig", "syssig", "malloc", "lmalloc", "err_r", "err_open", "err_close", "err_meta")
    assumptions = ["an interrupt that arrives exactly when read() returns may discard what was read (not simulated)", "an interrupt while a phrase is read discards what had been read of it; what is left of the phrase is then read as phrases",
                   "phrases are generated such that a part of one has no effect"]

    # ------------------------------------------------------------ generation

    def gen(self, rng, i):
        c = Case(rng.randrange(1 << 40))
        c.opts["arm"] = 0
        c.opts["errfiles"] = 1
        ph = []                  # phrases: {"k": kind, "t": text, "m": marker line, ...}
        files, script = {}, ["mkdir /w 777"]
        units = []
        for j in range(rng.choice([0, 1, 3])):
            n = "Un%d" % j
            bad = rng.random() < .3
            dep = rng.choice([u["n"] for u in units if not u["bad"]] + [None]) if units else None
            v = rng.randrange(1000)
            t = "val v = %s%d\n%s" % (dep + ".v + " if dep else "", v, "val _ = raise Fail \"init\"\n" if bad else "")
            if dep:
                v += [u for u in units if u["n"] == dep][0]["v"]
            units.append({"n": n, "v": v, "bad": bad, "dep": dep})
            script += ["write /w/%s.sml %s" % (n, esc(t)), "run name=c%s cwd=/w in=null fault=0 sig=0 -- %s %s -structure %s.sml" % (n, e_comp.RUN, e_comp.CMP, n)]
        if rng.random() < .4:      # a unit that cannot be loaded alone
            for n, t in (("Na", "val v = 1\n"), ("Nb", "val v = Na.v\n")):
                script += ["write /w/%s.sml %s" % (n, esc(t)), "run name=c%s cwd=/w in=null fault=0 sig=0 -- %s %s -structure %s.sml" % (n, e_comp.RUN, e_comp.CMP, n)]
        alone = any("/w/Nb" in l for l in script)
        nvar = [0]
        vs = {"x": [], "f": [], "r": [], "s": [], "d": []}
        N = [0]

        def p():
            N[0] += 1
            return N[0]

        def add(**k):
            ph.append(k)

        def num():
            return rng.choice([0, 1, 5, rng.randrange(1000), rng.randrange(10 ** 6)])

        def atom():
            return "val p%d = %d : int"

        def simple(kinds="xxxfrSdeXbL"):
            k = rng.choice(kinds)
            n = num()
            if k in "x" or (k in "eX" and not vs["r"]) or (k == "f" and not vs["x"]) or (k == "b" and not vs["x"]) or (k == "L" and not units):
                q = p()
                v = "x%d" % (rng.choice([q, q, rng.randrange(1, q + 1)]))
                if v not in vs["x"]:
                    vs["x"].append(v)
                return {"k": "x", "t": "val p%d = %d and %s = %d;" % (q, q, v, n), "m": "val p%d = %d : int" % (q, q), "more": ["val %s = %d : int" % (v, n)], "set": [[v, n]]}
            q = p()
            if k == "f":
                x = rng.choice(vs["x"])
                v = "f%d" % q
                vs["f"].append(v)
                return {"k": "f", "t": "val p%d = %d and %s = fn y => y + %s + %d;" % (q, q, v, x, n), "m": "val p%d = %d : int" % (q, q), "more": ["val %s = fn : int -> int" % v], "cap": [v, x, n]}
            if k == "b":           # a function that computes
                x = rng.choice(vs["x"])
                v = "x%d" % q
                vs["x"].append(v)
                m = rng.choice([10, 300, 3000])
                return {"k": "f", "t": "val p%d = %d and %s = N.foldl (fn (a, b) => if a > 0 then b + 1 else b) %s (N.tab %d);" % (q, q, v, x, m), "m": "val p%d = %d : int" % (q, q), "more": None, "cap": [v, x, m]}
            if k == "r":
                v = "r%d" % q
                vs["r"].append(v)
                return {"k": "x", "t": "val p%d = %d and %s = ref %d;" % (q, q, v, n), "m": "val p%d = %d : int" % (q, q), "more": ["val %s = ref %d : int ref" % (v, n)], "set": [[v, n]]}
            if k == "e":
                v = rng.choice(vs["r"])
                return {"k": "e", "t": "val p%d = (%s := %d; %d);" % (q, v, n, q), "m": "val p%d = %d : int" % (q, q), "more": [], "eff": [v, n], "commit": True}
            if k == "X":           # takes effect, then fails
                v = rng.choice(vs["r"])
                return {"k": "e", "t": "val p%d = (%s := %d; %s; %d);" % (q, v, n, rng.choice(["raise Subscript", "1 div 0", "N.inf 1"]), q), "m": None, "eff": [v, n], "commit": False}
            if k == "S":
                v = "Str%d" % q
                vs["s"].append(v)
                return {"k": "x", "t": "structure %s = struct datatype d = A | B of int val v = %d fun g (B k) = k + v | g A = 0 exception E of int end;" % (v, n), "m": "structure %s :" % v, "more": None, "set": [[v, n]]}
            if k == "d":
                v = "d%d" % q
                vs["d"].append(v)
                return {"k": "x", "t": "datatype %s = %s_A | %s_B of int * int list;" % (v, v, v), "m": "New type names: =%s" % v, "more": None, "set": [[v, 0]]}
            if k == "L":
                u = rng.choice(units)
                w = {"k": "L", "t": "val p%d = (load f%s; %d);" % (q, u["n"], q), "m": "val p%d = %d : int" % (q, q) if not u["bad"] else None, "more": [], "u": u["n"]}
                return w

        def bad():
            q = p()
            k = rng.randrange(13)
            t = ["val p%d = = 3;" % q, "val p%d = (1, ;" % q, "val p%d = 1 + true;" % q, "val p%d = nosuch%d;" % (q, q), "val (p%d, x1) = (1, 2, 3);" % q, "val p%d = 1 div 0;" % q,
                 "val p%d = N.inf 1;" % q, "val p%d = hd [];" % q, "val p%d = \x01 3;" % q, "structure Bad%d = struct val v = 1 val w = v + #1 3 end;" % q, "val p%d = use fnone;" % q, "val p%d = load fnone;" % q,
                 "val p%d = let val SOME z = (NONE : int option) in z end;" % q][k]
            if alone and rng.random() < .2:
                t = "val p%d = loadOne fNb;" % q
            return {"k": "bad", "t": t, "m": None}

        def usefile():
            nm = "u%d" % p()
            sub = []
            for _ in range(rng.choice([1, 2, 4])):
                x = simple("xxxfrSe")
                sub.append(x)
            fails = rng.random() < .4
            if fails:
                sub.append(bad())
                if rng.random() < .5:
                    x = p()
                    sub.append({"k": "never", "t": "val p%d = %d;" % (x, x), "m": None})
            files[nm] = "\n".join(x["t"] for x in sub) + rng.choice(["\n", ""])
            q = p()
            for x in sub:
                x["in"] = nm
                ph.append(x)
            ph.append({"k": "use", "t": "val p%d = (use f%s; %d);" % (q, nm, q), "m": None if fails else "val p%d = %d : int" % (q, q), "more": [], "file": nm})

        def probe(v=None):
            if v is None:
                c = [y for k in vs for y in vs[k]]
                if not c:
                    return
                v = rng.choice(c)
            q = p()
            e = {"x": v, "f": "(%s 3)" % v, "r": "(!%s)" % v, "S": "(case %s.B 4 of b => %s.g b)" % (v, v), "d": "(case %s_B (2, [5]) of %s_B (a, [b]) => a + b | _ => 0)" % (v, v)}[v[0]]
            add(k="probe", t="val p%d = (N.P %s; %d);" % (q, e, q), m="val p%d = %d : int" % (q, q), more=[], v=v)
        total = rng.choice([4, 10, 20, 30])
        for _ in range(total):
            x = rng.random()
            if x < .2:
                ph.append(bad())
            elif x < .32:
                usefile()
            elif x < .55:
                probe()
            else:
                s = simple()
                ph.append(s)
        for k in "xfrsd":
            for v in vs[k]:
                if rng.random() < .8:
                    probe(v)
        for u in units:
            q = p()
            add(k="uprobe", t="val p%d = (N.P %s.v; %d);" % (q, u["n"], q), m="val p%d = %d : int" % (q, q), more=[], u=u["n"])
        q = p()
        add(k="x", t="val p%d = %d;" % (q, q), m="val p%d = %d : int" % (q, q), more=[], set=[])
        for nm, t in files.items():
            script.append("write /w/%s.sml %s" % (nm, esc(t)))
        pre = "structure N = struct fun inf n = 1 + inf n fun its n = (if n > 9 then its (n div 10) else \"\") ^ str (chr (48 + n mod 10)) fun P n = print (\"@\" ^ its n ^ \"@\\n\") fun foldl f e [] = e | foldl f e (x :: r) = foldl f (f (x, e)) r fun tab n = if n = 0 then [] else n :: tab (n - 1) end;\n"
        pre += "val fnone = \"none\";\n"
        for nm in files:
            pre += "val f%s = \"%s.sml\";\n" % (nm, nm)
        for u in units:
            pre += "val f%s = \"%s\";\n" % (u["n"], u["n"])
        if alone:
            pre += "val fNb = \"Nb\";\n"
        pre += "val ready = 0;\n"
        top = [x for x in ph if "in" not in x]
        cuts = sorted(rng.sample(range(1, len(top)), min(len(top) - 1, rng.choice([0, 0, 1, 3]))))
        ops = ["W " + esc(pre)]
        kills = []
        pos = 0
        for cut in [0] + cuts + [len(top)]:
            text = "".join(x["t"] + rng.choice(["\n", "\n", " ", "\n\n"]) for x in top[pos:cut])
            pos = cut
            # the session is idle in the middle of each pause
            q, sz = 0, rng.choice([20, 200, 10000])
            left = 500000000
            while q < len(text):
                n = rng.randrange(1, sz + 1)
                ops.append("W " + esc(text[q:q + n]))
                q += n
                if rng.random() < .3:
                    t = rng.choice([1000, 10 ** 6, 10 ** 8])
                    if t <= left:
                        left -= t
                        ops.append("S %d" % t)
            if cut < len(top):
                ops.append("S %d" % (left + 1500000000))
                kills.append(rng.random() < .4)
        if rng.random() < .5:
            c.opts["maxfd"] = rng.choice([8, 10, 16])
        script += ["opt maxfd %d" % c.opts.pop("maxfd")] if "maxfd" in c.opts else []
        c.ops["ft"] = ops
        c.meta = {"need": [l for l in script if l.split()[0] in ("write", "mkdir", "run")], "fixed_ops": ["ft"], "ph": ph, "units": units, "kill": kills, "kind": "with units" if units else "plain"}
        c.script = script + ["faults off", "spawn name=t sig=1 cwd=/w in=feed:ft -- %s %s" % (e_comp.RUN, TOP), "sleep 1000000000", "mark t", "faults on"] + (["kill t 2"] if kills[0] else []) + \
            [l for k in kills[1:] for l in ["sleep 2000000000"] + (["kill t 2"] if k else [])] + \
            ["wait t", "dump /out/t.out", "dump /out/t.err"]
        return c

    def faults(self, rng, base, r0, k):
        c = base.clone()
        c.seed = rng.randrange(1 << 40)
        self.benign(rng, c, .3)
        v = rng.choice(e_io.VARIANTS)
        c.script = [s.replace("-- " + e_comp.RUN + " /lib/mosmltop", "-- " + v + " /lib/mosmltop") for s in c.script]
        if k % 4 == 0:
            return c
        pid = r0.pid("t")
        cnt = dict(r0.counts.get(pid, {}))
        lo = dict(r0.marks.get("t", {}))
        cnt["pollsig"], lo["pollsig"] = cnt.get("poll", 0), lo.get("poll", 0)
        cls = rng.choice([("pollsig",), ("pollsig",), ("syssig",), ("malloc", "lmalloc"), ("err_r",), ("err_open", "err_close", "err_meta"), self.FAULTS])
        D = []
        for _ in range(rng.choice([1, 1, 2, 5])):
            o = [x for x in cls if cnt.get(x, 0) > lo.get(x, 0)]
            if o:
                x = rng.choice(o)
                D.append([pid, x, rng.randrange(lo.get(x, 0), cnt[x]), rng.randrange(1, 1 << 32)])
        c.D = D
        return c

    # ------------------------------------------------------------ the model

    def apply(self, w, x):
        """(worlds after the phrase succeeded, or None if it must fail in w; world after it took effect only)"""
        k = x["k"]
        if k == "x":
            n = dict(w)
            n.update({v: a for v, a in x["set"]})
            return n, None
        if k == "f":
            v, s, a = x["cap"]
            if s not in w:
                return None, None
            n = dict(w)
            n[v] = w[s] + a
            return n, None
        if k == "e":
            v, a = x["eff"]
            if v not in w:
                return None, None
            e = dict(w)
            e[v] = a
            return (e if x["commit"] else None), e
        if k == "probe":
            return (w if x["v"] in w else None), None
        if k == "uprobe":
            return (w if x["u"] in w else None), None
        if k == "L":
            u = x["u"]
            n = dict(w)
            e = None
            while u:
                d = self.units[u]
                if not d["bad"]:
                    n[u] = d["v"]
                u = d["dep"]
            # dependencies may be loaded although the phrase fails
            return (None if self.units[x["u"]]["bad"] else n), n
        if k in ("bad", "never"):
            return None, None
        if k == "use":
            return (None if x["m"] is None else w), None
        raise KeyError(k)

    def judge(self, case, r):
        m = case.meta
        for l in m["need"]:
            if l not in case.script:
                return []
        for n in r.starts:
            if n[0] == "c" and r.status(n) != 0:
                return ["compiling a unit ended with status %s" % r.status(n)]
        out = (r.files.get("/out/t.out") or b"").decode("latin-1")
        err = r.files.get("/out/t.err") or b""
        st = r.status("t")
        pid = r.pid("t")
        F = sum(1 for d in r.D if d[0] == pid and d[1] in self.FAULTS)
        sigs = sum(1 for d in r.D if d[0] == pid and d[1] in ("pollsig", "syssig"))
        j = out.find("> val ready = 0 : int\n")
        if j < 0:
            return ["the interactive system did not start: %r %r" % (out[-300:], err[-200:])]
        pos = j + 22
        tail = out[pos:]
        if st != 0:
            if sigs and st == 2:
                m["known"] = True
                return ["killed by an interrupt during a phrase"]
            if sigs > 1 and st == 512 and err.endswith(b"Uncaught exception: Interrupt\n"):
                m["known"] = True
                return ["killed by an interrupt while it recovered from another one"]
            return ["the interactive system ended with status %s after %r %r" % (st, tail[-200:], err[-200:])]
        if m["kill"][0] and not F:
            k = re.match(r"(?:- )?> Interrupted\.\n", tail)
            if not k:
                return ["an interrupt at the prompt was answered with %r" % tail[:100]]
            pos += k.end()
        if tail.count("> Interrupted.\n") + F < sum(m["kill"]):
            return ["%d interrupts at the prompt were answered %d times" % (sum(m["kill"]), tail.count("> Interrupted.\n"))]
        self.units = {u["n"]: u for u in m["units"]}
        worlds = [{}]
        lost = []
        failed = {}
        for x in m["ph"]:
            k = x["k"]
            res = [self.apply(w, x) for w in worlds]
            must = all(a is not None for a, _ in res)
            if failed.get(x.get("in", x.get("file"))):
                res = [(None, None) for _ in worlds]
                must = False
            seen = None
            if x["m"] is not None:
                if x["m"].startswith("structure"):
                    q = re.compile(r"(?:^|- )(?:> New type names: =d\S*\n(?:  .*\n)*?  |> )%s.*\n" % re.escape(x["m"]), re.M)
                else:
                    q = re.compile(r"(?:^|- )> %s.*\n" % re.escape(x["m"]), re.M)
                seen = q.search(out, pos)
            if k == "never" and re.search(r"> val %s =" % x["t"].split()[1], out[pos:]):
                return ["%r: a phrase behind the failing one was executed" % x["t"]]
            if seen:
                seg = out[pos:seen.start()]
                full = self.block(out, seen)
                pos = seen.end()
                if x.get("more"):
                    for l in x["more"]:
                        if l not in full and not F:
                            return ["%r: the answer is %r" % (x["t"], full)]
                new = [a for a, _ in res if a is not None]
                if not new:
                    return ["%r succeeded: %r" % (x["t"], full)]
                if k in ("probe", "uprobe"):
                    v = re.findall(r"@(-?\d+)@", seg)
                    if not v:
                        return ["%r printed %r" % (x["t"], seg[-100:])]
                    ok = []
                    for w in new:
                        if str(self.value(w, x)) == v[-1]:
                            ok.append(w)
                    if not ok:
                        return ["%r printed %s instead of %s" % (x["t"], v[-1], " or ".join(sorted({str(self.value(w, x)) for w in new})))]
                    new = ok
                worlds = new
            else:
                if x.get("in"):
                    failed[x["in"]] = True
                if must and x["m"] is not None:
                    if not F:
                        return ["%r failed: %r" % (x["t"], self.around(out, pos))]
                    lost.append(x["t"])
                if k == "uprobe" or k == "probe":
                    # a wrong value must not be printed either
                    pass
                if F and k in ("probe",):
                    name = x["v"]
                    if re.search(r"Unbound (value|structure|data constructor|unit) identifier: %s\b" % name, out[pos:]):
                        keep = [w for w in worlds if name not in w]
                        if not keep:
                            return ["%s lost its binding: %r" % (name, self.around(out, pos))]
                        worlds = keep
                new = []
                for w, (a, e) in zip(worlds, res):
                    if F:
                        new.append(w)
                        if a is not None and a is not w:
                            new.append(a)
                        if e is not None:
                            new.append(e)
                            if k == "L":
                                u = self.units[x["u"]]["dep"]
                                while u:
                                    n = dict(w)
                                    y = u
                                    while y:
                                        n[y] = self.units[y]["v"]
                                        y = self.units[y]["dep"]
                                    new.append(n)
                                    u = self.units[u]["dep"]
                    else:
                        new.append(e if e is not None else w)
                worlds = []
                for w in new:
                    if w not in worlds:
                        worlds.append(w)
            if len(worlds) > 400:
                return []
        if len(lost) > 3 * F:
            return ["%d phrases failed after %d faults: %r" % (len(lost), F, lost)]
        o, cl = tail.count("[opening file"), tail.count("[closing file")
        if o != cl and not F:
            return ["%d files were opened and %d closed" % (o, cl)]
        if not F:
            n = sum(1 for x in m["ph"] if x["m"] is None and x["k"] != "never" and "in" not in x and not (x["k"] == "use"))
            e = len(re.findall(r"^(?:- )*! (?=\S)", tail, re.M))
        return []

    def block(self, out, s):
        """the lines of an answer"""
        l = [out[s.start():s.end()]]
        p = s.end()
        while out.startswith("  ", p):
            q = out.find("\n", p) + 1
            if not q:
                break
            l.append(out[p:q])
            p = q
        return "".join(l)

    def around(self, out, pos):
        return out[pos:pos + 400]

    def value(self, w, x):
        if x["k"] == "uprobe":
            return w[x["u"]]
        v = x["v"]
        return w[v] + 3 if v[0] == "f" else 4 + w[v] if v[0] == "S" else 7 if v[0] == "d" else w[v]

    def known_match(self, bad, known):
        t = bad[1][0][1]
        i = "toplevel-sigdfl" if t.startswith("killed by an interrupt during a phrase") else "toplevel-twice" if t.startswith("killed by an interrupt while it recovered") else None
        return i if any(k.get("id") == i for k in known) else None
