#!/usr/bin/env python3
"""Decides one property of INNC by seeded search over simulated executions.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: the property held on everything explored; 1: VIOLATION line; 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild

# seeds tried by the quick check (over all workers)
QUICK = {"C01": 18000, "C02": 14000, "C03": 14000, "C04": 6500, "C05": 4500, "C06": 4000, "C07": 8000, "C08": 8000,
         "C09": 9000, "C10": 18000, "C11": 4200, "C12": 18000, "C13": 3000, "C14": 360}
QUICK_SECONDS = 50
THOROUGH_SECONDS = 2400
WORKERS = 8

RULE = {
    "C01": "random programs of 1-4 callers over the whole API under a random schedule; every result compared with the reference model",
    "C02": "random programs of 2-4 callers that build and differentiate graphs at once under a random schedule; every gradient compared with the reference model",
    "C03": "random programs of 2-4 callers sharing tensors for reading; happens-before analysis of every memory access of the library",
    "C04": "random histories in which chosen calls have an allocation fail at a chosen place (then are repeated) or are invalid requests; all live tensors audited after every failure",
    "C05": "random histories with failing allocations run three times over; memory in use with no handles left must not grow from repetition to repetition",
    "C06": "random graphs whose backward has each allocation fail in turn; recovery (clear leaves, rebuild, repeat) must give the exact gradients",
    "C07": "random programs run under four allocator behaviours (contents, placement and reuse of memory); complete observation logs must be equal",
    "C08": "random histories biased to views, drops and failures; every access and free checked against live allocations",
    "C09": "random histories of views, copies and in-place additions handed between threads; all tensors audited after every call",
    "C10": "random histories of overlapping graphs over common leaves by 1-3 callers taking turns; every gradient compared with the reference model",
    "C11": "random histories that drop and reassign handles between building and differentiating, freed memory being reused at once; gradients and memory in use checked",
    "C12": "random draws by 1-4 callers with refused and failing draws; values checked for linearizability against one-at-a-time draws from the same seed",
    "C13": "graph families of growing size alone and next to another caller, and single calls on growing tensors; simulated steps must grow linearly",
    "C14": "graphs of thousands of links on a 256 KiB stack, differentiated and dropped in various ways with memory short; gradients compared with closed forms",
}
COMPONENTS = {
    "real": ["all of /repo/src and /repo/include, compiled from the working tree", "libstdc++ containers, shared_ptr, streams, mt19937", "caller threads (parked and released one at a time by the simulator)"],
    "simulated": ["thread scheduling at every memory access, atomic, lock, allocation and call boundary", "heap: placement, reuse order, contents and failure of every allocation", "mutexes, once, static guards", "caller stacks (fixed size)", "addresses (no randomisation)", "seed of the random engine"],
    "stub": [],
}


def say(*a):
    print(*a, flush=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in sys.argv:
        seed = int(sys.argv[sys.argv.index("--seed") + 1])
    t0 = time.time()
    ev_dir = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    exe, err = simbuild.build()
    if err:
        say("cannot build the simulator from the working tree:\n" + err)
        return 2
    t_build = time.time() - t0
    count = QUICK[prop] if tier == "quick" else 10 ** 9
    secs = float(os.environ.get("SIM_SECONDS", QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS))
    say("%s: seed %d, tier %s, up to %d runs or %.0f s on %d workers" % (prop, seed, tier, count, secs, WORKERS))

    known, violation, errors = [], None, []
    listed = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if l.startswith("known: property=%s " % prop)]
    fixed = 0
    if prop == "C10":
        p = subprocess.run([exe, "fixed", "C10", "refed", "--replay-dir", rep_dir], capture_output=True, text=True)
        fixed += 1
        try:
            d = json.loads(p.stdout)
        except ValueError:
            d = {"cls": "harness", "msg": "no result: " + p.stdout + p.stderr, "note": ""}
        if d["cls"] == "harness":
            errors.append("recorded history refed: " + d["msg"])
        elif d["cls"] != "none":
            violation = {"replay": d["replay"], "cls": d["cls"], "msg": d["msg"], "seed": 0}
        elif d["note"] == "known":
            m = [l for l in listed if "history=refed" in l]
            if m:
                known.append(m[0].split("history=refed ", 1)[1])
            else:
                path = os.path.join(rep_dir, "C10-refed.replay")
                open(path, "w").write("# two losses over one intermediate result: wrong leaf gradient\n" + p.stdout)
                violation = {"replay": path, "cls": "wrong-gradient", "msg": "two losses over one intermediate result, differentiated one after the other, give a wrong leaf gradient", "seed": 0, "norerun": True}

    results = []
    if not violation:
        procs = []
        for w in range(WORKERS):
            procs.append(subprocess.Popen([exe, "batch", prop, "--base", str(seed), "--first", str(w), "--step", str(WORKERS), "--count", str(count),
                                           "--seconds", str(secs), "--replay-dir", rep_dir, "--min-seconds", "20"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        import threading
        outs = [None] * WORKERS
        found = threading.Event()

        def reader(i):
            o, e = procs[i].communicate()
            outs[i] = (o, e, procs[i].returncode)
            try:
                if json.loads(o)["violation"]:
                    found.set()
            except ValueError:
                pass

        ts = [threading.Thread(target=reader, args=(i,)) for i in range(WORKERS)]
        for t in ts:
            t.start()
        stopped = False
        while any(t.is_alive() for t in ts):
            if found.is_set() and not stopped:
                stopped = True
                for p in procs:
                    if p.poll() is None:
                        p.terminate()
            time.sleep(0.05)
            if time.time() - t0 > t_build + secs + 400:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
        for o, e, rc in outs:
            try:
                results.append(json.loads(o))
            except ValueError:
                errors.append("a worker ended without result (exit %s): %s" % (rc, (e or "")[-400:]))
        cands = []
        for r in results:
            errors += r["errors"]
            if r["violation"]:
                cands.append({"replay": r["violation"], "cls": r["cls"], "msg": r["msg"], "seed": r["vseed"], "before": r["calls_before"], "after": r["calls_after"]})
        for c in sorted(cands, key=lambda c: c["seed"]):
            # a fresh process must reproduce it exactly, twice
            rcs = [subprocess.run([exe, "replay", c["replay"]], capture_output=True, text=True) for _ in range(2)]
            if all(r.returncode == 1 for r in rcs):
                violation = c
                break
            errors.append("seed %d: %s does not replay in a fresh process (%s)" % (c["seed"], c["cls"], [r.returncode for r in rcs]))

    agg, maps = {}, {"kinds": {}, "scens": {}, "foreign": {}, "heaps": {}, "scheds": {}}
    tot = {k: 0 for k in ("runs", "executions", "nontrivial", "multi", "faulty", "faults_planned", "distinct_logs", "distinct_observations", "distinct_interleavings")}
    samples = []
    for r in results:
        for k in tot:
            tot[k] += r[k]
        for k, v in r["ctr"].items():
            agg[k] = agg.get(k, 0) + v
        for m in maps:
            for k, v in r[m].items():
                maps[m][k] = maps[m].get(k, 0) + v
        samples += r["samples"][:1]
    wall = time.time() - t0
    search = max([r["seconds"] for r in results] or [0.001])
    cov = {
        "evaluations": tot["runs"] + fixed,
        "distinct_nontrivial": tot["nontrivial"],
        "rule": RULE[prop] + "; one evaluation is one seed; non-trivial means that it allocated memory and made at least 4 judged calls (or built at least 8 graph nodes, or is a work-bound run), "
                "distinct means that the hash of its event log (schedule, allocations failed, observations) differs from that of every other run of the same worker",
        "samples": samples[:4],
        "simulated_executions": tot["executions"] + fixed,
        "seeds": {"base": seed, "first": seed * 10000000, "count": tot["runs"]},
        "runs_per_hour": int(tot["runs"] / search * 3600),
        "executions_per_hour": int(tot["executions"] / search * 3600),
        "simulated_steps": agg.get("steps", 0),
        "simulated_time_note": "the library has no clock or timer; simulated time is the number of steps (memory accesses, atomics, lock operations, allocations)",
        "faults_fired": {k: agg.get(k, 0) for k in ("alloc_fail_once", "alloc_fail_from_here_on", "alloc_fail_big", "alloc_fail_window")},
        "faults_planned": tot["faults_planned"],
        "runs_with_fired_faults": tot["faulty"],
        "other_faults": {"stalled_caller_decisions": agg.get("stall_skips", 0), "invalid_requests": agg.get("invalid_requests", 0), "caller_buffers_overwritten_and_freed": agg.get("buffer_clobbers", 0),
                         "hostile_bytes_in_fresh_memory": agg.get("garbage_bytes", 0), "freed_blocks_handed_out_again": agg.get("reused_blocks", 0), "work_handed_to_another_thread": agg.get("migrations", 0)},
        "preemptions": {k: agg.get(k, 0) for k in ("switches", "switch_at_access", "switch_at_shared_access", "switch_at_alloc", "switch_at_call", "switch_on_block", "switch_pct", "lock_waits")},
        "multi_caller_runs": tot["multi"],
        "distinct_interleavings": tot["distinct_interleavings"],
        "distinct_interleavings_measure": "hash of the sequence of (operation, event number, next thread) of all thread switches together with the program",
        "distinct_event_logs": tot["distinct_logs"],
        "distinct_observation_logs": tot["distinct_observations"],
        "probes": {k: v for k, v in agg.items() if k in ("ops", "skipped", "unspecified_calls", "direct_assignments", "failed_calls", "retries", "backwards", "failed_backwards", "rebuilt_graphs", "audits", "audited_tensors", "gradients_checked",
                                                          "inplace_adds", "handle_drops", "random_draws", "shared_leaf_backwards", "overlapping_backwards", "undecided_runs", "race_checked_accesses", "rounds", "graph_nodes", "allocs", "frees")},
        "calls_by_kind": maps["kinds"],
        "scenarios": maps["scens"],
        "heap_behaviours": maps["heaps"],
        "scheduling_policies": maps["scheds"],
        "violations_of_other_properties_seen": maps["foreign"],
        "components": COMPONENTS,
        "known_findings_reproduced": known,
    }
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sequentially consistent interleavings at the granularity of instrumented accesses", "code inside libstdc++'s shared library is not preempted and its accesses are not judged",
                          "the reference model in /verif/sim/model.cpp is right about tensor semantics", "programs judged are those the model calls valid or invalid; unspecified requests are skipped (counted as skipped)"],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if violation:
        ev["coverage"]["violation"] = violation
    if errors:
        ev["coverage"]["errors"] = errors[:10]
    tmp = os.path.join(ev_dir, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(ev_dir, prop + ".json"))
    say("%s: %d runs, %d simulated steps, %d faults fired, %d interleavings; build %.0f s, search %.0f s" %
        (prop, tot["runs"], agg.get("steps", 0), sum(cov["faults_fired"].values()), tot["distinct_interleavings"], t_build, search))
    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        say("%s (seed %d): %s" % (violation["cls"], violation["seed"], violation["msg"]))
        say("replay with: %s replay %s" % (exe, violation["replay"]))
        say("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if errors:
        say("the check itself failed:\n" + "\n".join(errors[:10]))
        return 2
    if results and tot["runs"] == 0:
        say("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
