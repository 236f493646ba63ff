"""Running an engine: seeded search, gating, minimisation, replay, evidence."""
import os, sys, re, json, time, random, traceback, multiprocessing, queue, resource, collections, hashlib, signal
from simlib import *

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

# what every engine treats as broken, whatever its workload
BENIGN = ("sched", "short_r", "short_w", "eintr", "pipechunk", "tick", "gc", "slice", "place", "netdelay", "netchunk", "shuf")


class Engine:
    name = "?"
    real = []
    stub = []
    assumptions = []
    groups_quick = 400
    groups_thorough = 20000
    gc_budget = 300           # forced collections in one run, about
    faulted = 6               # fault runs per base scenario

    def __init__(self, build, prop):
        self.b, self.prop = build, prop

    def prepare(self):
        """compile drivers; return the LOAD lines"""
        return []

    def fixed(self):
        """cases always run first"""
        return []

    def gen(self, rng, i):
        raise NotImplementedError

    def faults(self, rng, base, r0, k):
        return None

    def judge(self, case, r):
        return []

    # -- verdict over one run: list of (kind, message)
    def verdict(self, case, r):
        out = []
        if r.fail:
            return [("simfail", r.fail)]
        for cls, msg, pid in r.viol:
            if cls == "script":
                return [("simfail", "script: " + msg)]
            out.append((cls, "%s: %s" % (cls, msg)))
        if not out:
            if r.stop == "deadlock" and not case.meta.get("deadlock_ok"):
                out.append(("deadlock", "deadlock: no process can run (%s)" % ", ".join(n for _, n in r.blocked)))
            elif r.stop in ("steps", "polls", "output"):
                out.append(("progress", "no termination within the step bound (%s)" % r.stop))
        if not out:
            for m in self.judge(case, r) or []:
                out.append(m if isinstance(m, tuple) else ("judge " + re.sub("[^a-zA-Z<>]+", " ", re.sub("^op [0-9]+ ", "", m))[:28], m))
        return out


def pick_targets(rng, counts, classes, k=1, pids=None):
    """k forced decisions at positions that the fault-free run reached"""
    opts = []
    for pid, cs in counts.items():
        if pids is not None and pid not in pids:
            continue
        for c in classes:
            n = cs.get(c, 0)
            if n:
                opts.append((pid, c, n))
    D = []
    for _ in range(k):
        if not opts:
            break
        pid, c, n = rng.choice(opts)
        D.append([pid, c, rng.randrange(n), rng.randrange(1, 1 << 32)])
    return D


# ---------------------------------------------------------------- workers
_w = {}


def _init(engine, loads, simrun, seed, tier, deadline, stopflag):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _w.update(engine=engine, sim=Sim(simrun, loads), sim2=Sim(simrun, loads), seed=seed, tier=tier, deadline=deadline, stop=stopflag)


def _note(st, case, r):
    st["runs"] += 1
    st["ns"] += r.stats.get("ns", 0)
    st["steps"] += r.stats.get("steps", 0)
    st["switches"] += r.stats.get("switches", 0)
    for c, (a, f) in r.cls.items():
        if f:
            st["fired"][c] += f
    if r.stats.get("faults", 0) or r.D:
        st["faulted_runs"] += 1
    for p, n in r.probes.items():
        st["probes"][p] += n
    st["hashes"].add(r.hash)
    st["stops"][r.stop] += 1
    m = case.meta.get("kind")
    if m:
        st["kinds"][m] += 1


def newstats():
    return dict(runs=0, ns=0, steps=0, switches=0, fired=collections.Counter(), probes=collections.Counter(), hashes=set(),
                stops=collections.Counter(), kinds=collections.Counter(), faulted_runs=0, bad=[], infra=[], detchecks=0, samples=[])


def _group(i):
    e, sim = _w["engine"], _w["sim"]
    st = newstats()
    if _w["stop"].value or time.time() > _w["deadline"]:
        return i, None
    try:
        rng = random.Random(subseed(_w["seed"], e.prop, i))
        if i < 0:
            cases = [e.fixed_cases[-i - 1]]
            base = None
        else:
            base = e.gen(rng, i)
            if base is None:
                return i, st
            cases = [base]
        r0 = None
        k = 0
        while cases:
            case = cases.pop(0)
            r = sim.run(case)
            _note(st, case, r)
            v = e.verdict(case, r)
            if r0 is None:
                r0 = r
            if v and v[0][0] == "simfail":
                st["infra"].append((v[0][1], case.to_json()))
                break
            if v:
                st["bad"].append((case.to_json(), v, r.hash, r.D))
                break
            if st["runs"] % 23 == 1 and i % 5 == 0:
                r2 = _w["sim2"].run(case)
                st["detchecks"] += 1
                if r2.hash != r.hash or r2.alllogs != r.alllogs or r2.exits != r.exits:
                    st["infra"].append(("two runs of one case differ", case.to_json()))
            if len(st["samples"]) < 1 and i in (1, 2, 5) and r.D:
                st["samples"].append(dict(case=case.to_text()[:3000], decisions=len(r.D), first=r.D[:10], hash=r.hash, stop=r.stop))
            if base is not None and k < e.faulted and not _w["stop"].value and time.time() < _w["deadline"]:
                c2 = e.faults(random.Random(subseed(_w["seed"], e.prop, i, k)), base, r0, k)
                if e.gc_budget and c2 is not None and c2.cls.get("gc", (0, 1))[1:3] == [0, 1 << 40]:
                    n = max([x.get("gc", 0) for x in r0.counts.values()] or [0])
                    c2.cls["gc"] = gc_rate(random.Random(c2.seed), n, e.gc_budget)
                k += 1
                if c2 is not None:
                    cases.append(c2)
    except Exception:
        st["infra"].append((traceback.format_exc(), None))
    return i, st


def _worker(args, todo, nxt, q):
    _init(*args)
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, resource.RLIM_INFINITY))      # (the simulators are running already)
    while True:
        with nxt.get_lock():
            k = nxt.value
            nxt.value += 1
        if k >= len(todo):
            break
        q.put(_group(todo[k]))
        if time.time() > args[5] or _w["stop"].value:
            break
    q.put((None, None))
    _w["sim"].close()
    _w["sim2"].close()


def merge(a, b):
    for k in ("runs", "ns", "steps", "switches", "faulted_runs", "detchecks"):
        a[k] += b[k]
    for k in ("fired", "probes", "stops", "kinds"):
        a[k].update(b[k])
    a["hashes"] |= b["hashes"]
    a["bad"] += b["bad"]
    a["infra"] += b["infra"]
    a["samples"] += b["samples"]


def explore(engine, loads, seed, tier, seconds, workers=8, maxbad=6):
    """returns merged stats"""
    st = newstats()
    engine.fixed_cases = engine.fixed()
    for n, c in enumerate(engine.fixed_cases):
        c.meta.setdefault("fixed", n)
    ngroups = engine.groups_quick if tier == "quick" else engine.groups_thorough
    deadline = time.time() + seconds
    flag = multiprocessing.Value("i", 0)
    todo = [-n - 1 for n in range(len(engine.fixed_cases))] + list(range(ngroups))
    done = 0
    ctx = multiprocessing.get_context("fork")
    nxt = ctx.Value("i", 0)
    q = ctx.Queue()
    args = (engine, loads, engine.b.simrun, seed, tier, deadline, flag)
    procs = [ctx.Process(target=_worker, args=(args, todo, nxt, q), daemon=True) for _ in range(workers)]
    for p in procs:
        p.start()
    live = workers
    while live:
        try:
            i, s = q.get(timeout=2)
        except queue.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            for p in dead:
                st["infra"].append(("a worker process ended with %s" % p.exitcode, None))
                procs.remove(p)
                live -= 1
            if time.time() > deadline + 60:
                st["infra"].append(("workers did not finish", None))
                break
            continue
        if i is None:
            live -= 1
            continue
        if s is None:
            continue
        done += 1
        merge(st, s)
        if len([b for b in st["bad"] if not b[0]["meta"].get("known")]) >= maxbad or len(st["infra"]) > 20:
            flag.value = 1
    for p in procs:
        p.terminate()
    st["groups"] = done
    st["groups_planned"] = len(todo)
    return st


def gate(engine, loads, bad, deadline):
    """A violation is reported only if it repeats: twice from the seed, then from
    the recorded decisions in a fresh process; then it is minimised."""
    cj, v, h, D = bad
    kind = v[0][0]

    def once(case):
        s = Sim(engine.b.simrun, loads)
        try:
            return s.run(case)
        finally:
            s.close()
    case = Case.from_json(cj)
    soft = kind in ("hang",)
    for _ in range(2):
        r = once(case)
        vv = engine.verdict(case, r)
        if not vv or vv[0][0] != kind or (r.hash != h and not soft):
            return None, "not repeatable: %s / %s" % (v[0], vv[:1])
    rc = case.clone()
    rc.replay = True
    rc.cls = {}
    rc.D = [list(d) for d in D]
    r = once(rc)
    vv = engine.verdict(rc, r)
    if not vv or vv[0][0] != kind:
        return None, "does not replay from its decisions: %s / %s" % (v[0], vv[:1])
    sim = Sim(engine.b.simrun, loads)

    def fails(c):
        x = engine.verdict(c, sim.run(c))
        return bool(x) and x[0][0] == kind
    if not soft:
        if kind == "deadlock":         # dropping operations can create another one
            rc.meta["fixed_ops"] = list(rc.ops)
        rc = minimise(rc, fails, budget=200, deadline=deadline)
    sim.close()
    r = once(rc)
    vv = engine.verdict(rc, r)
    if not vv:
        return None, "minimised case does not replay"
    return (rc, vv, r), None
