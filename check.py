#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

  check.py P01 [--tier quick|thorough] [--seed N]     run the batch
  check.py --replay FILE                              re-execute a replay file exactly
  check.py P01 --one I [--scenario NAME] [--trace]    run one simulation and print it
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    want = os.environ.get("VERIF_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        os.execv(sys.executable, [sys.executable] + sys.argv)


def load_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def matches(f, sc_name, res):
    if f.get("scenario") and not re.fullmatch(f["scenario"], sc_name):
        return False
    if not re.fullmatch(f["cls"], res.get("cls", "")):
        return False
    return re.search(f.get("msg", ""), res.get("msg", ""), re.S) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--scenario")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--secs", type=float)
    ap.add_argument("--slots", type=int, default=8)
    ap.add_argument("--keep-going", action="store_true", help="development: report every class of violation")
    ap.add_argument("--digests", help="development: write seed -> trace hash to this file")
    a = ap.parse_args()
    reexec()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    if a.replay:
        rp = json.load(open(a.replay, encoding="utf-8"))
        a.prop = rp["property"]
    t_start = time.time()
    from sim import boot, runner

    try:
        mod = importlib.import_module("checks." + a.prop.lower())
        boot.boot()
        boot.warm()
    except boot.Harness as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 3
    if hasattr(mod, "setup"):
        mod.setup()
    pool = runner.Pool(mod, a.slots)
    byname = {s.name: s for s in mod.SCENARIOS + getattr(mod, "EXTRA", [])}
    if a.replay:
        return replay(pool, byname, rp, a)
    if a.one is not None:
        sc, seed = runner.plan_seed(mod, a.seed, a.one)
        if a.scenario:
            sc = byname[a.scenario]
        kn = runner.make_knobs(seed, sc)
        got = []
        pool.run_many([(0, sc, seed, kn, None, 200000 if a.trace else 0)], lambda t, r: got.append(r))
        r = got[0]
        tr = r.pop("trace", None)
        r.pop("rec", None)
        if a.trace and tr:
            for x in tr:
                print(*x)
        for key in ("tb", "info", "msg"):
            if r.get(key):
                print(f"--- {key}\n{r.pop(key)}")
        print(json.dumps(dict(scenario=sc.name, seed=seed, knobs=kn, **r), indent=1, default=str))
        return 0
    return batch(mod, pool, byname, a, t_start)


def replay(pool, byname, rp, a):
    sc = byname[rp["scenario"]]
    got = []
    pool.run_many([(0, sc, rp["seed"], rp["knobs"], rp["choices"], 200000 if a.trace else 4000)], lambda t, r: got.append(r))
    r = got[0]
    if a.trace:
        for x in r.get("trace", []):
            print(*x)
    print(f"replay {a.replay}: outcome={r.get('outcome')} cls={r.get('cls')} hash={r.get('h')} expected cls={rp['cls']} hash={rp['h']}")
    if r.get("cls"):
        print(r.get("msg"))
        print(r.get("tb", ""))
    if r.get("cls") == rp["cls"]:
        same = r.get("h") == rp["h"]
        print("reproduced exactly" if same else "reproduced (different code: trace hash differs)")
        print(f"VIOLATION property={rp['property']} replay={a.replay}")
        return 1
    if r.get("outcome") in ("harness", "wall"):
        print(r.get("info"))
        return 3
    return 0


def batch(mod, pool, byname, a, t_start):
    from sim import runner

    prop = a.prop
    tier = a.tier
    quick = dict(runs=600, secs=28.0) | getattr(mod, "QUICK", {})
    thorough = dict(runs=200_000, secs=600.0) | getattr(mod, "THOROUGH", {})
    lim = dict(quick if tier == "quick" else thorough)
    if a.runs:
        lim["runs"] = a.runs
    if a.secs:
        lim["secs"] = a.secs
    findings = load_findings(prop)
    stats = collections.Counter()
    probes = collections.Counter()
    per_sc = collections.defaultdict(collections.Counter)
    hashes = set()
    hashes_nt = set()
    bad = []
    harness = []
    known_hit = collections.Counter()
    samples = []
    tot = collections.Counter()
    digests = {}
    retry = {}
    sim_time = 0.0
    t0 = time.time()

    def jobs():
        for i in range(lim["runs"]):
            if time.time() - t0 > lim["secs"]:
                return
            sc, seed = runner.plan_seed(mod, a.seed, i)
            if a.scenario and sc.name != a.scenario:
                sc = byname[a.scenario]
            kn = runner.make_knobs(seed, sc)
            yield (i, sc, seed, kn), sc, seed, kn, None, 0
        return

    def on(tag, r):
        nonlocal sim_time
        i, sc, seed, kn = tag
        c = per_sc[sc.name]
        c["runs"] += 1
        tot["runs"] += 1
        out = r.get("outcome")
        if a.digests:
            digests[f"{sc.name}/{seed}"] = [r.get("h"), r.get("steps"), r.get("cls"), (r.get("result") or {}).get("digest")]
        if out in ("harness", "wall", None):
            if out == "wall" and i not in retry:
                retry[i] = tag
            else:
                harness.append((i, sc.name, seed, r))
            return
        sim_time += r.get("sim", 0)
        tot["steps"] += r.get("steps", 0)
        tot["switches"] += r.get("switches", 0)
        tot["lines"] += r.get("lines", 0)
        stats.update(r.get("stats", {}))
        probes.update(r.get("probes", {}))
        hashes.add(r["h"])
        res = r.get("result") or {}
        if r.get("cls"):
            for f in findings:
                if matches(f, sc.name, r):
                    known_hit[f["id"]] += 1
                    c["known"] += 1
                    break
            else:
                bad.append((i, sc, seed, kn, r))
                c["violations"] += 1
            return
        if out != "done":
            c[out] += 1
        if res.get("nontrivial", r.get("switches", 0) > 0):
            c["nontrivial"] += 1
            hashes_nt.add(r["h"])
        if len(samples) < 6 and c["runs"] <= 2:
            samples.append(dict(scenario=sc.name, seed=seed, steps=r.get("steps"), switches=r.get("switches"),
                                sim_seconds=round(r.get("sim", 0), 3), trace_hash=r["h"], what=res.get("what", "")))

    stop = (lambda: False) if a.keep_going else (lambda: bool(bad) or len(harness) > 20)
    pool.run_many(jobs(), on, stop)
    if retry and not bad:  # a run that hit the wall-clock guard is tried again alone
        for i, tag in list(retry.items())[:5]:
            _, sc, seed, kn = tag
            pool.run_many([(tag, sc, seed, kn, None, 0)], on)
    batch_wall = time.time() - t0

    extra_cov = {}
    if hasattr(mod, "extra") and not bad and not os.environ.get("VERIF_NOEXTRA"):
        def report_bad(sc_name, seed, kn, r):
            bad.append((-1, byname[sc_name], seed, kn, r))
        extra_cov = mod.extra(a, pool, report_bad, lim, digests) or {}

    if a.digests:
        json.dump(digests, open(a.digests, "w"), indent=0, sort_keys=True)
    for f in findings:  # the recorded history of each known finding
        if known_hit[f["id"]] == 0 and f.get("pin"):
            pn = f["pin"]
            sc = byname[pn["scenario"]]

            def pinned(t, r, f=f, sc=sc):
                if r.get("cls") and matches(f, sc.name, r):
                    known_hit[f["id"]] += 1

            def seeds(pn=pn, sc=sc):
                # The recorded seed, then others: a seed's history changes when the simulator does.
                for s in range(pn["seed"], pn["seed"] + pn.get("tries", 1)):
                    yield 0, sc, s, pn.get("knobs") or runner.make_knobs(s, sc), pn.get("choices"), 0

            pool.run_many(seeds(), pinned, lambda f=f: known_hit[f["id"]] > 0)
        if known_hit[f["id"]]:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")

    rc = 0
    shown = collections.OrderedDict()
    for b in sorted(bad, key=lambda b: b[0]):
        shown.setdefault((b[1].name, b[4]["cls"]), []).append(b)
    if a.keep_going:
        for (scn, cls), bs in shown.items():
            i, sc, seed, kn, r = bs[0]
            print(f"=== {scn} {cls} x{len(bs)} first --one {i} (seed {seed})\n{r.get('msg')[:1500]}\n{r.get('tb', '')[-1800:]}")
            if r.get("died"):
                print("died:", r["died"])
        for i, scn, seed, r in harness[:5]:
            print(f"=== HARNESS {scn} --one {i} {r.get('outcome')}\n{r.get('info')}")
        print({k: dict(v) for k, v in per_sc.items()})
        print("stats", dict(stats))
        print("probes", dict(probes))
        print(f"runs {tot['runs']} in {batch_wall:.1f}s; harness {len(harness)}; distinct {len(hashes)}; steps {tot['steps']}")
        return 1 if bad else 0
    replay_file = None
    if bad:
        i, sc, seed, kn, r = sorted(bad, key=lambda b: b[0])[0]
        replay_file = write_replay(pool, prop, sc, seed, kn, r, 25.0 if tier == "quick" else 120.0)
        print(f"{sc.name} seed={seed}: {r['cls']}: {r.get('msg', '')[:3000]}")
        print(r.get("tb", "")[-2500:])
        print(f"VIOLATION property={prop} replay={replay_file}")
        rc = 1
    elif harness:
        for i, scn, seed, r in harness[:3]:
            print(f"ERROR harness {scn} run {i} seed {seed}: {r.get('outcome')} {r.get('info', '')[-3000:]}", file=sys.stderr)
        if len(harness) > max(1, tot["runs"] // 200):
            rc = 3
    if tot["runs"] == 0 and rc == 0:
        rc = 3
    wall = time.time() - t_start
    faults = {k.split(":", 1)[1] if k.startswith("fault:") else k: v for k, v in sorted(stats.items())
              if k.startswith(("fault:", "crash:", "timer-early", "preempt-line", "mpqueue-lost"))}
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=len(bad),
        coverage=dict(
            evaluations=tot["runs"],
            distinct_nontrivial=len(hashes_nt),
            rule=getattr(mod, "RULE", "") or "One evaluation is one simulated execution drawn from VERIF_SEED (workload, knobs, schedule, faults). "
            "Distinct means a different hash of the complete scheduling/fault/network event trace; non-trivial means the scenario's own "
            "reach condition held (data was actually delivered / the fault actually fired / threads actually interleaved).",
            samples=samples,
            per_scenario={k: dict(v) for k, v in sorted(per_sc.items())},
            runs_per_hour=round(tot["runs"] / max(batch_wall, 0.001) * 3600),
            simulated_seconds=round(sim_time, 1),
            scheduling_steps=tot["steps"], context_switches=tot["switches"], monitored_lines=tot["lines"],
            distinct_executions=len(hashes),
            faults_injected=faults,
            probes=dict(sorted(probes.items())),
            harness_errors=len(harness),
            known_findings_hit=dict(known_hit),
            components_real=getattr(mod, "REAL", REAL), components_stub=getattr(mod, "STUB", STUB),
            **extra_cov,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS,
    )
    if replay_file:
        ev["coverage"]["replay"] = replay_file
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {tot['runs']} simulated runs, {len(hashes_nt)} distinct non-trivial, "
          f"{sim_time:.0f} simulated s, {len(harness)} harness errors, {wall:.1f} s, exit {rc}")
    return rc


REAL = ["all mixtera Python modules (client, server, query, chunk distributor, result chunk, mixtures, caches, checkpointing, network "
        "protocol, torch dataset, tokenizing iterators)", "chunker.cpp compiled from the working tree", "DuckDB (single-threaded)",
        "asyncio streams and event loop machinery (BaseEventLoop, StreamReader/Writer, Tasks)", "pyarrow/polars/pandas", "dill/pickle",
        "file contents on a RAM-backed scratch directory"]
STUB = ["OS threads/processes scheduling (simulated scheduler, parked threads)", "multiprocessing primitives and fork (deep-copied "
        "process image)", "TCP sockets (simulated byte pipes)", "clock/timers/sleep", "indicators progress bar (no-op header)",
        "HuggingFace tokenizer (one token per character)", "shared memory segments (in-process buffers)", "directory listing order (seeded)"]
BASE_ASSUMPTIONS = ["Data that write()/rename() reported as done survives a process crash (no lost page cache; no power loss).",
                    "DuckDB itself recovers its last committed state.",
                    "Threads are pre-empted at synchronisation operations, I/O, database statements and (in part of the runs) at any "
                    "source line of mixtera, not inside C calls."]


def write_replay(pool, prop, sc, seed, kn, r, budget):
    from sim import runner

    rec = r.get("rec")
    got = None
    if rec is not None:
        try:
            m = runner.Minimiser(pool, sc, seed, kn, rec, r["cls"], budget)
            got = m.run()
        except Exception as e:  # noqa: BLE001
            print(f"minimiser: {e}", file=sys.stderr)
            pool.kill_all()
    kn2, rec2 = got if got else (kn, rec)
    fin = []
    pool.run_many([(0, sc, seed, kn2, rec2 if got else None, 4000)], lambda t, x: fin.append(x))
    f = fin[0]
    if f.get("cls") != r["cls"]:
        kn2, rec2, f = kn, rec, r
    doc = dict(property=prop, scenario=sc.name, seed=seed, knobs=kn2, choices=rec2, cls=r["cls"], msg=f.get("msg", r.get("msg")),
               h=f.get("h"), minimised=bool(got), decisions=sum(len(v) for v in (rec2 or {}).values()),
               original_decisions=sum(len(v) for v in (rec or {}).values()), notes=f.get("notes"), tb=f.get("tb"), trace=f.get("trace", [])[-1500:])
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{hashlib.sha1(json.dumps([sc.name, seed, r['cls']]).encode()).hexdigest()[:10]}.json"
    p = os.path.join(d, name)
    with open(p, "w", encoding="utf-8") as fp:
        json.dump(doc, fp, indent=1, default=str)
    return p


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
