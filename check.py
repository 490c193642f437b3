#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--budget SECONDS]

Decides one property of /repo's current working tree by model checking: builds the
model checker (mc/) together with the library, explores every scenario registered for
the property, writes evidence/<ID>.json.
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 no verdict.
"""
import argparse, concurrent.futures as cf, fcntl, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
EV = os.path.join(HERE, "evidence")
EXTRA = 30.0  # seconds of wall-clock time per quick check for bounds beyond the quick tier's
ONLY = None
KNOWN = os.path.join(HERE, "known-findings.txt")


def die(msg):
    print("NO-VERDICT " + msg, file=sys.stderr)
    sys.exit(2)


def build(variants):
    os.makedirs(os.path.join(MC, "target"), exist_ok=True)
    with open(os.path.join(MC, "target", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(len(variants)) as ex:
            rs = list(ex.map(lambda v: subprocess.run([os.path.join(MC, "build.sh"), v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), variants))
    for v, r in zip(variants, rs):
        if r.returncode != 0:
            print(r.stdout[-4000:], file=sys.stderr)
            die("the %s build of the model checker with /repo failed" % v)


def binary(v):
    return os.path.join(MC, "target", v, "ship" if v == "ship" else "release", "mc")


def known():
    """`known: property=<id> scenario=<name> kind=<kind> msg=<text>` lines."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: "):
                d = {}
                rest = l[len("known: "):].rstrip("\n")
                head, _, d["msg"] = rest.partition(" msg=")
                for w in head.split():
                    k, _, x = w.partition("=")
                    d[k] = x
                out.append(d)
    return out


def last_json(out):
    for l in reversed(out.splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return None


def run_one(job):
    v, name, tier, secs, states, replay, extra = job
    cmd = [binary(v), "run", name, "--tier", tier, "--time", "%.1f" % secs, "--states", str(states), "--out", replay, "--extra", "%.2f" % extra]
    if ONLY:
        cmd.append("--watch-" + ONLY)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return v, name, None, "timed out"
    d = last_json(r.stdout)
    if d is None:
        return v, name, None, "exit %d: %s" % (r.returncode, (r.stderr or r.stdout)[-600:])
    return v, name, d, ""


def confirm(v, replay, kind):
    """Replay the recorded execution; True if it shows the same kind of violation twice."""
    for _ in range(2):
        try:
            r = subprocess.run([binary(v), "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        d = last_json(r.stdout)
        if not d or not d.get("violation") or d["violation"]["kind"] != kind:
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    global ONLY
    # what only one property speaks of, and it of nothing else
    ONLY = {"P20": "alloc", "P21": "order", "P22": "busy-wait"}.get(a.id)
    budget = a.budget or (780.0 if thorough else 600.0)
    variants = ["std", "ns"] + (["ship"] if thorough else [])
    build(variants)
    r = subprocess.run([binary("std"), "litmus"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:], file=sys.stderr)
        die("the model checker's own litmus tests failed")
    litmus = r.stdout.count(": ok")

    rdir = os.path.join(EV, "replay", a.id)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    jobs = []
    for v in variants:
        out = subprocess.run([binary(v), "list"], stdout=subprocess.PIPE, text=True).stdout
        for l in out.splitlines():
            name, props, tier = l.split("\t")
            if a.id not in props.split(","):
                continue
            if not thorough and tier != "quick":
                continue
            # the queue itself and the policies are the same code without the standard library
            if not thorough and v == "ns" and not name.startswith(("c_", "sc_", "x_", "n_", "t_", "e_", "f_")):
                continue
            jobs.append((v, name))
    if not jobs:
        die("no scenario for property " + a.id)
    workers = max(2, min(8, os.cpu_count() or 2))
    # every job gets the same share of the wall-clock budget, but at least enough for the bounds
    # of the quick tier; what one job does not use is not handed on, so that results are comparable
    share = (budget * workers / len(jobs)) if thorough else 150.0
    states = 20_000_000 if thorough else 12_000_000
    heavy = ("split", "cancel_recv_drain", "pend2", "cap3_pre2", "hold", "2p2c", "full", "_deep")
    jobs.sort(key=lambda j: (not any(h in j[1] for h in heavy), j))
    # quick: when a scenario's bounds are exhausted, it goes on into the deeper ones for a moment
    extra = 0.0 if thorough else min(15.0, EXTRA * workers / len(jobs))
    todo = [(v, n, a.tier, share, states, os.path.join(rdir, "%s.%s.replay" % (v, n)), extra if v == "std" else 0.0) for v, n in jobs]
    deadline = t0 + budget
    results, skipped, errors, stop = [], [], [], []

    def guarded(job):
        if len(stop) >= 3 or time.time() > deadline:
            return (job[0], job[1], None, "skipped")
        r = run_one(job)
        if r[2] and r[2].get("violation") and (not ONLY or r[2]["violation"]["kind"] == ONLY):
            stop.append(1)
        return r

    bad, elsewhere = [], []
    with cf.ThreadPoolExecutor(workers) as ex:
        for v, name, d, err in ex.map(guarded, todo):
            if d is None:
                (skipped if err == "skipped" else errors).append((v, name, err))
                continue
            results.append((v, name, d))
            if d.get("violation") and ONLY and d["violation"]["kind"] != ONLY:
                elsewhere.append("%s/%s: %s" % (v, name, d["violation"]["msg"]))
            elif d.get("violation"):
                bad.append((v, name, d))

    kf = known()
    violations, suppressed, unconfirmed = [], [], []
    for v, name, d in bad[:12]:
        vi = d["violation"]
        replay = os.path.join(rdir, "%s.%s.replay" % (v, name))
        hit = [k for k in kf if k.get("property") == a.id and k.get("scenario") == name and k.get("kind") == vi["kind"] and k["msg"] in vi["msg"]]
        if hit:
            suppressed.append((name, vi))
            continue
        ok = confirm(v, replay, vi["kind"])
        if not ok:
            # undefined behaviour need not replay step by step; a second exploration must find it again
            _, _, d2, _ = run_one((v, name, a.tier, share, states, replay, extra))
            ok = bool(d2 and d2.get("violation"))
        with open(replay, "a") as f:
            f.write("variant %s\nrerun %s replay <this file> --trace\n" % (v, binary(v)))
        (violations if ok else unconfirmed).append((v, name, vi, replay))
        if len(violations) >= 3:
            break

    tot = lambda k: sum(d.get(k, 0) for _, _, d in results)
    exh = sum(1 for _, _, d in results if d["exhausted"])
    samples = []
    for v, name, d in results:
        for s in d.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"scenario": name, "build": v, "outcome": s})
    if not samples:
        samples = [{"scenario": n, "build": v, "executions": d["executions"]} for v, n, d in results[:5]]
    ev = {
        "property": a.id,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("states") + tot("histories"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("executions"),
            "samples": samples,
            "exhaustive": exh == len(results) and not skipped and not errors,
            "scenarios": len(results),
            "scenarios_exhausted_within_bounds": exh,
            "scenarios_not_run": len(skipped) + len(errors),
            "distinct_outcomes": tot("outcomes"),
            "pruned_revisits": tot("pruned"),
            "deepest_execution": max([d["max_depth"] for _, _, d in results] or [0]),
            "engine_litmus_tests_passed": litmus,
            "per_scenario": [
                {
                    "scenario": n, "build": v, "executions": d["executions"], "states": d["states"] + d["histories"],
                    "transitions": d["transitions"], "exhausted": d["exhausted"],
                    "bounds": [{k: b[k] for k in ("preemptions", "stale", "weak_cas", "spurious", "timers", "exhausted", "executions")} for b in d["bounds"]],
                }
                for v, n, d in sorted(results, key=lambda r: (r[1], r[0]))
            ],
            "explanation": "Every execution runs the library's real code under the checker's scheduler; there is no separate model. "
                           "states: distinct global states at scheduling points plus distinct operation histories; each is reached by running the code.",
        },
        "assumptions": [
            "Bounded scenarios: at most 4 threads and small capacities under concurrency (single-threaded histories: capacities up to 65537, more than 2^16 laps), bounds per scenario as listed (-1: unlimited).",
            "Memory model: release/acquire with per-location modification order and bounded stale reads; no load buffering (as in loom), SeqCst as in C++20.",
            "Other scheduling points: every atomic, lock, park and cell access of the library (cfg thingbuf_mc); user code between them is atomic.",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"scenario": n, "build": v, "kind": vi["kind"], "msg": vi["msg"], "replay": rp} for v, n, vi, rp in violations],
    }
    if elsewhere:
        ev["coverage"]["violations_of_other_properties"] = elsewhere[:20]
    if unconfirmed or errors:
        ev["coverage"]["problems"] = ["%s/%s: %s (not reproduced)" % (v, n, vi["msg"]) for v, n, vi, _ in unconfirmed] + ["%s/%s: %s" % e for e in errors]
    os.makedirs(EV, exist_ok=True)
    tmp = os.path.join(EV, ".%s.tmp" % a.id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EV, a.id + ".json"))

    for k in kf:
        if k.get("property") == a.id and any(n == k.get("scenario") for n, _ in suppressed):
            print("KNOWN-FINDING: property=%s scenario=%s %s" % (a.id, k.get("scenario"), k["msg"]))
    print("%s %s: %d scenarios (%d exhausted within bounds), %d states, %d executions, %.1f s"
          % (a.id, a.tier, len(results), exh, ev["coverage"]["states"], tot("executions"), time.time() - t0))
    for v, n, vi, rp in violations:
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        print("  %s (%s build): %s: %s" % (n, v, vi["kind"], vi["msg"]))
    if violations:
        sys.exit(1)
    if errors or unconfirmed:
        for v, n, e in errors:
            print("error in %s (%s build): %s" % (n, v, e), file=sys.stderr)
        for v, n, vi, _ in unconfirmed:
            print("not reproduced: %s (%s build): %s" % (n, v, vi["msg"]), file=sys.stderr)
        sys.exit(2)
    for f in os.listdir(rdir):
        os.remove(os.path.join(rdir, f))


main()
