#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds S] [--count N]
Builds what the property needs from /repo, searches seeded simulated runs with
eight workers, gates, minimises and replays what it finds, writes
evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violation."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B

KERNEL = ["hpGEM kernel (/repo/kernel)", "PETSc 3.19 / SLEPc 3.19 as installed"]
STUB = ["MPI (simulated libmpi: scheduler decides delivery, buffering, collective synchronisation and reduction order)",
        "process scheduling (ranks are fibers in separate link namespaces of one process)", "clocks and entropy", "the outcome of file opens, reads, writes and closes"]
# property: libraries, quick seconds, thorough seconds
CONF = json.load(open(os.path.join(V, "checks.json")))

def known(prop):
    """entries of known_findings.txt: 'finding: property=P class=<c> contains=<text> :: <description>'"""
    r = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            if l.startswith("finding:") and ("property=%s " % prop) in l:
                head, desc = l[len("finding:"):].split("::", 1)
                cls = head.split("class=")[1].split(" contains=")[0].strip()
                r.append((cls, head.split(" contains=")[1].strip(), desc.strip()))
    except OSError:
        pass
    return r

def main():
    t0 = time.time()
    prop = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CONF[prop]
    secs = float(opt.get("--seconds", conf["thorough" if tier == "thorough" else "quick"]))
    count = int(opt.get("--count", 10**9))
    try:
        bt = B.build(["hsim"] + conf["libs"])
    except B.BuildError:
        # a driver may no longer fit internal interfaces the programs themselves use
        rest = [l for l in conf["libs"] if l not in conf.get("drivers", [])]
        if rest == conf["libs"]:
            raise
        bt = B.build(["hsim"] + rest)
        os.environ["HSIM_WITHOUT_DRIVERS"] = "1"
        print("%s: the driver does not compile with this tree, only the programs are run" % prop)
    t1 = time.time()
    work = tempfile.mkdtemp(prefix="hsimchk.")
    replaydir = os.path.join(V, "replay")
    os.makedirs(replaydir, exist_ok=True)
    hsim = os.path.join(B.B, "hsim")
    nw = int(os.environ.get("HSIM_WORKERS", os.cpu_count() or 8))
    env = dict(os.environ, HSIM_TMP=work)
    procs = []
    try:
        for w in range(nw):
            o = open(os.path.join(work, "out%d" % w), "w")
            e = open(os.path.join(work, "err%d" % w), "w")
            procs.append(subprocess.Popen([hsim, "work", prop, "--seed", str(seed), "--start", str(w), "--stride", str(nw), "--count", str(count),
                "--tmax", str(secs), "--tier", tier, "--replaydir", work, "--out", os.path.join(work, "stats%d" % w), "--shrink", str(conf.get("shrink", 40)),
                "--maxranks", str(conf.get("maxranks", 8))], stdout=o, stderr=e, env=env, start_new_session=True))
        deadline = time.time() + secs + 240
        found = False
        while any(p.poll() is None for p in procs):
            time.sleep(0.2)
            if not found and any(p.poll() == 1 for p in procs):
                found = True
                for p in procs:  # the others need not go on searching
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGTERM)
            if time.time() > deadline:
                for p in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, signal.SIGKILL)
        errs = [open(os.path.join(work, "err%d" % w)).read() for w in range(nw)]
        finds, notes = [], []
        for w, p in enumerate(procs):
            if p.returncode == 1:
                for l in open(os.path.join(work, "out%d" % w)):
                    if l.startswith("FOUND\t"):
                        finds.append(l.rstrip("\n").split("\t"))
            elif p.returncode == 3:
                notes.append("worker %d dropped a violation that did not reproduce: %s" % (w, errs[w][-500:]))
            elif p.returncode not in (0, -signal.SIGTERM, -signal.SIGKILL):
                print("check %s: worker failed (%s): %s" % (prop, p.returncode, errs[w][-2000:]))
                return 2
            if "not deterministic" in errs[w]:
                notes.append(errs[w][-500:])
        kf = known(prop)
        viol, knownHit = [], []
        for _, f, cls, h, msg in finds:
            dst = os.path.join(replaydir, os.path.basename(f))
            shutil.copyfile(f, dst)
            p = subprocess.run([hsim, "replay", dst], capture_output=True, text=True, env=env)
            if p.returncode != 1 or ("class=" + cls + " ") not in p.stdout:
                notes.append("violation %s did not replay in a fresh process: %s" % (dst, p.stdout[:300] + p.stderr[:300]))
                continue
            if h not in p.stdout:
                notes.append("%s replays with other values (memory contents reach the results)" % dst)
            viol.append((dst, cls, p.stdout.split("\n", 1)[1].strip()))
        agg = {"runs": 0, "jobs": 0, "parJobs": 0, "steps": 0, "simTime": 0.0, "detChecks": 0, "detBad": 0}
        counters, ranks, hashes, samples = {}, {}, set(), []
        for w in range(nw):
            try:
                s = json.load(open(os.path.join(work, "stats%d" % w)))
            except (OSError, ValueError):
                continue
            for k in agg:
                agg[k] += s[k]
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in s["ranks"].items():
                ranks[k] = ranks.get(k, 0) + v
            hashes.update(s["hashes"])
            samples += s["samples"][:1]
            for k, cls, d in [(k, c, d) for c, t, d in kf for k in s["counters"] if k == "known:" + c]:
                pass
        for c, t, d in kf:
            knownHit.append((c, d))
            counters.setdefault("known:" + c, 0)
        search = time.time() - t1
        cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(hashes),
               "rule": conf["rule"] + " A run is one generated case (mesh, partition, process count, operations, schedule policy, faults) executed in the simulator; distinct_nontrivial counts distinct hashes over every scheduling step, message and result of the simulated parallel executions (more than one process).",
               "samples": samples[:4], "simulated_jobs": agg["jobs"], "parallel_jobs": agg["parJobs"], "scheduling_steps": agg["steps"],
               "runs_per_hour": round(agg["runs"] / max(search, 1e-9) * 3600), "seeds_per_hour": round(agg["runs"] / max(search, 1e-9) * 3600),
               "simulated_seconds": round(agg["simTime"], 3),
               "faults_injected": {k: v for k, v in sorted(counters.items()) if k.startswith("fault-") or k in ("rank-death", "rendezvous-send", "non-synchronising-collective", "reduction-reordered", "any-source-choice", "rank-stalled-400-steps", "arrived-unexpected")},
               "events": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault-") and not k.startswith("probe:")},
               "reached": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")},
               "process_counts": ranks, "determinism_rechecks": agg["detChecks"], "determinism_failures": agg["detBad"],
               "real_components": KERNEL + conf.get("real", []), "stubbed_components": STUB, "build_s": round(bt, 1), "notes": notes}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
              "assumptions": ["the simulated MPI implements the MPI-3.1 semantics the code relies on", "one MPI process = one rank without threads"] + conf.get("assumptions", [])}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        for c, d in knownHit:
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
        for n in notes:
            print("note: " + n)
        print("%s %s: %d runs, %d distinct parallel executions, %.0f s (build %.0f s)" % (prop, tier, agg["runs"], len(hashes), time.time() - t0, bt))
        if viol:
            for dst, cls, msg in viol:
                print("%s: %s" % (cls, msg[:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, dst))
            return 1
        if agg["runs"] == 0:
            print("check %s: nothing was run: %s" % (prop, " ".join(errs)[-2000:]))
            return 2
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("check: build failed\n%s" % e)
        sys.exit(2)
