#!/usr/bin/env python3
"""check.py PROPERTY: decide one property by seeded simulation of the tree in /repo.

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick).
Exit 0: held on everything explored; 1: violation (replay file named on stdout); 3: error."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONF = json.load(open(os.path.join(HERE, "runs.json")))

def known_findings(pid):
    """lines: 'known: property=<id> class=<violation class> <what fails>'"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    c = CONF["properties"][pid]
    count = c["quick"] * (CONF["thorough_factor"] if tier == "thorough" else 1)
    secs = CONF["thorough_seconds"] if tier == "thorough" else CONF["quick_seconds"]
    bdir = os.path.join(HERE, "build")
    b = subprocess.run(["bash", os.path.join(HERE, "build.sh"), bdir])
    if b.returncode: print("ERROR: build failed"); return 3
    t_build = time.time() - t0
    sim = os.path.join(bdir, "simrun")
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    if os.path.exists(evf): os.unlink(evf)
    known = known_findings(pid)
    nw = min(len(os.sched_getaffinity(0)), 16)
    tmp = tempfile.mkdtemp(prefix="sim-" + pid + "-", dir=bdir)
    try:
        return explore(pid, seed, tier, count, secs, sim, tmp, nw, known, ev, evf, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def explore(pid, seed, tier, count, secs, sim, tmp, nw, known, ev, evf, t0, t_build):
    t1 = time.time()
    ps = [subprocess.Popen([sim, "run", "--prop", pid, "--seed", str(seed), "--worker", str(k), "--workers", str(nw), "--count", str(count),
                            "--seconds", str(secs), "--outdir", tmp, "--known", ",".join(known) or "-"]) for k in range(nw)]
    bad = [p.wait() for p in ps]
    t_search = time.time() - t1
    rs = [json.load(open(f)) for f in sorted(glob.glob(tmp + "/result.*.json"))]
    if any(bad) or len(rs) != nw:
        print("ERROR: simulation worker failed", bad); return 3
    tot = lambda k: sum(r[k] for r in rs)
    def addmap(k):
        m = {}
        for r in rs:
            for n, v in r[k].items(): m[n] = m.get(n, 0) + v
        return m
    hashes = set()
    for r in rs: hashes.update(r["hashes"])
    edges = set()
    for r in rs: edges.update(r["edges_hit"])
    samples = []
    for r in rs:
        for s in r["samples"]: samples.append(s[:700])
    viols = []
    for r in rs:
        for v in r["viol"]:
            path, world, vseed, msg = v["info"].split("\t", 3)
            viols.append((v["class"], path, world, vseed, msg))
    viols.sort()
    errors = [r["errmsg"] for r in rs if r["errors"]]
    reported = []; rc = 0
    for cls in sorted(set(v[0] for v in viols)):
        if cls in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[cls]))
    new = [v for v in viols if v[0] not in known]
    gate_errors = []
    for cls, path, world, vseed, msg in new[:6]:
        # the worker has already repeated the run with the same seed; now a fresh process must reproduce it exactly
        want = [l.split()[1] for l in open(path) if l.startswith("hash ")][0]
        def replay(f):
            p = subprocess.run([sim, "replay", f], stdout=subprocess.PIPE, text=True)
            m = re.search(r"hash=(\S+) class=(.*)", p.stdout)
            return p.returncode, m and m.group(1).lstrip("0"), p.stdout
        rcode, h, o = replay(path)
        if rcode != 1 or h != want:
            gate_errors.append("violation in world %s seed %s did not replay exactly: %s" % (world, vseed, o.strip()[:300])); continue
        dest = os.path.join(ev, "%s.replay" % pid)
        m = subprocess.run([sim, "minimize", path, "--out", dest, "--budget", "40" if tier == "quick" else "120"], stdout=subprocess.PIPE, text=True)
        ok = m.returncode == 0 and replay(dest)[0] == 1
        if not ok: shutil.copy(path, dest)
        print("violation of %s in world %s, seed %s: %s: %s" % (pid, world, vseed, cls, msg))
        print(m.stdout.strip()[:1500])
        print("replay with: %s replay %s --v" % (sim, dest))
        print("VIOLATION property=%s replay=%s" % (pid, dest))
        reported.append({"class": cls, "world": world, "seed": int(vseed), "message": msg[:1500], "replay": dest, "minimised": m.stdout.strip()[:600]})
        rc = 1; break
    if rc == 0 and (gate_errors or errors):
        print("ERROR: " + "; ".join(gate_errors + errors)[:2000]); rc = 3
    runs = tot("runs")
    fl = {k: v for k, v in addmap("faults").items() if v}
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": "one evaluation = one complete simulated run of the world from its own seed with its oracle checked; nontrivial = the run reached the state the "
                    "property speaks about (the world's own condition); distinct = different sequence of (thread, reason) scheduler hand-overs",
            "samples": samples[:6],
            "nontrivial_runs": tot("nontrivial"),
            "runs_per_hour": int((runs + tot("repeated")) / max(t_search, 0.01) * 3600), "seeds_per_hour": int(runs / max(t_search, 0.01) * 3600),
            "requested_runs": count, "simulated_seconds": round(tot("sim_s"), 1), "scheduler_steps": tot("steps"), "context_switches": tot("switches"),
            "library_edges_executed": tot("edges"), "library_edges_covered": len(edges), "library_edges_total": rs[0]["edge_n"],
            "client_calls": tot("calls"), "network_bytes": tot("net_bytes"),
            "worlds": addmap("worlds"), "faults_injected": fl, "probes": addmap("probes"), "runs_reaching_probe": addmap("probe_runs"),
            "repeated_for_determinism": tot("repeated"), "determinism_mismatches": tot("mismatched"), "retried_after_wall_limit": tot("retried"),
            "build_s": round(t_build, 1), "search_s": round(t_search, 1), "workers": nw,
            "real_code": "all sources of libiqxmlrpc, boost.thread, libxml2, OpenSSL, libstdc++",
            "stubs": "sockets, poll/select, name lookup, clocks, sleeps, pthread mutex/cond/rwlock/once/create/join scheduling (simulator)",
        },
        "assumptions": ["sequentially consistent memory (one thread runs at a time; preemption at every synchronisation call, system call and, in a share of runs, instrumented basic block)",
                        "no allocation failures", "TCP semantics as on Linux"],
        "violations": reported,
    }
    with open(evf, "w") as f: json.dump(evd, f, indent=1); f.write("\n")
    print("%s %s seed %d: %d runs (%d distinct schedules), %.0f simulated seconds, build %.0fs search %.0fs -> %s" %
          (pid, tier, seed, runs, len(hashes), tot("sim_s"), t_build, t_search, {0: "held", 1: "VIOLATED", 3: "error"}[rc]))
    return rc

sys.exit(main())
