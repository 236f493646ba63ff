#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--seconds S]
   check.py --replay FILE      run a recorded violation again"""
import os, sys, json, time, argparse, importlib, re, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/sim", V + "/engines"]
from simlib import *
import core
from build import Build, BuildError

ENGINES = json.load(open(V + "/engines/table.json"))     # property -> module


def load_known():
    try:
        return json.load(open(V + "/known_findings.json"))
    except FileNotFoundError:
        return []


def get_engine(build, prop):
    m = importlib.import_module(ENGINES[prop])
    return m.make(build, prop)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--trace", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    b = Build()
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            prop = rep["property"]
        else:
            prop = a.prop
        try:
            b.go()
            e = get_engine(b, prop)
            loads = e.prepare()
        except BuildError as x:
            print("build failed: %s" % x)
            return 2
        tb = time.time() - t0
        if a.replay:
            c = Case.from_json(rep["case"])
            if a.trace:
                c.opts["trace"] = a.trace
            s = Sim(b.simrun, loads)
            r = s.run(c)
            s.close()
            if a.trace:
                sys.stdout.write(r.raw.decode("latin-1"))
            v = e.verdict(c, r)
            for k, m in v:
                print("%s: %s" % (k, m))
            same = r.hash == rep["hash"] or a.trace
            print("hash %s (%s)" % (r.hash, "as recorded" if same else "recorded %s" % rep["hash"]))
            return 1 if v else 0
        print("seed %d tier %s property %s" % (a.seed, a.tier, prop), flush=True)
        known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
        seconds = a.seconds or (28 if a.tier == "quick" else 780)
        st = core.explore(e, loads, a.seed, a.tier, seconds, a.workers)
        code = 0
        nviol = 0
        seen_known = set()
        deadline = time.time() + (60 if a.tier == "quick" else 90)
        failures = []
        kinds = set()
        for bad in sorted(st["bad"], key=lambda x: (len(x[3]), len(json.dumps(x[0])))):
            kf = e.known_match(bad, known) if known and hasattr(e, "known_match") else None
            if kf:
                seen_known.add(kf)
                continue
            key = re.sub(r"[0-9a-f]+", "#", bad[1][0][1])[:60]
            if nviol >= 1 and (key in kinds or nviol >= 3 or time.time() > deadline - 20):
                continue
            res, why = core.gate(e, loads, bad, deadline)
            if res is None:
                failures.append(why)
                continue
            kinds.add(key)
            rc, vv, r = res
            nviol += 1
            path = V + "/evidence/replays/%s-%s.json" % (prop, hashlib.sha256(rc.to_text().encode("latin-1")).hexdigest()[:10])
            json.dump(dict(property=prop, kind=vv[0][0], message=vv[0][1], seed=a.seed, found=bad[1][0][1], case=rc.to_json(), hash=r.hash,
                           how="python3 /verif/check.py --replay " + path), open(path, "w"), indent=1)
            print("violated: %s" % vv[0][1])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code = 1
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if st["infra"] and not code:
            for m, cj in st["infra"][:3]:
                print("infrastructure: %s" % m)
                if cj:
                    p = V + "/evidence/replays/infra-%s.json" % prop
                    json.dump(dict(property=prop, case=cj, hash="?"), open(p, "w"))
                    print("  case in " + p)
            code = 2
        if failures and not code:
            print("violations that could not be repeated: %s" % failures[:3])
            code = 2
        wall = time.time() - t0
        ex = max(0.001, wall - tb)
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=nviol,
                  assumptions=e.assumptions,
                  coverage=dict(
                      evaluations=st["runs"], distinct_nontrivial=len(st["hashes"]),
                      rule="one evaluation is one simulated execution (seed, script, fault plan); the base scenario of each group runs without injected faults, "
                           "then with faults placed at points that run reached or drawn at random; two are distinct if the hashes of their event sequences "
                           "(system calls with data and results, switches, signals, collections, decisions) differ",
                      samples=st["samples"][:3] or [dict(note="no sample group reached")],
                      groups=st["groups"], groups_planned=st["groups_planned"], runs_with_injected_decisions=st["faulted_runs"],
                      runs_per_hour=int(st["runs"] / ex * 3600), simulated_seconds=round(st["ns"] / 1e9, 3), system_calls=st["steps"], switches=st["switches"],
                      injected={k: st["fired"][k] for k in sorted(st["fired"])}, probes={k: st["probes"][k] for k in sorted(st["probes"])},
                      scenario_kinds={k: st["kinds"][k] for k in sorted(st["kinds"])}, endings={k: st["stops"][k] for k in sorted(st["stops"])},
                      determinism_rechecks=st["detchecks"], build_seconds=round(tb, 1),
                      real=e.real, stubs=e.stub, libc_not_simulated=b.passthrough if hasattr(b, "passthrough") else []))
        json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
        print("%s: %d runs (%d distinct), %d groups of %d, %d faults injected, %.1f s build, %.1f s total, exit %d" % (
            prop, st["runs"], len(st["hashes"]), st["groups"], st["groups_planned"], sum(st["fired"].values()), tb, wall, code), flush=True)
        return code
    finally:
        b.remove()


if __name__ == "__main__":
    sys.exit(main())
