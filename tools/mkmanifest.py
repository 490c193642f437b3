"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, subprocess
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T = {
 "P01": "stateless model checking of the real queue code (all schedules within preemption/stale-read bounds) + exhaustive operation histories against a ring model",
 "P02": "stateless model checking of racing pushes/pops at the full and empty boundaries + exhaustive operation histories against a ring model",
 "P03": "model checking of the real code under a weak-memory scheduler with happens-before race detection on every cell, waker and list node",
 "P04": "exhaustive histories and schedules with per-element drop accounting and a checked allocator",
 "P05": "exhaustive histories and schedules with a recording recycling policy compared to a ring model",
 "P06": "exhaustive enumeration of policy configurations, contents and capacities on the real policies",
 "P07": "model checking of channel programs (all schedules within bounds), delivery oracle on the recorded history, + exhaustive single-threaded histories",
 "P08": "model checking of channel programs with deadlock / lost-wakeup detection at every terminal state",
 "P09": "model checking of channel programs with stranded-sender detection at every terminal state",
 "P10": "model checking of handle clone/drop against receives, history oracle, + exhaustive histories",
 "P11": "model checking of receiver drop against sends, waits and cancellations, history oracle",
 "P12": "model checking of future drops at every point against wakeups, node retirement tracking",
 "P13": "model checking with a virtual clock (timers fire at any allowed point), deadline oracle, stack-node retirement tracking",
 "P14": "model checking with frozen threads and held references, step-bounded progress oracle",
 "P15": "exhaustive histories and schedules of size queries against interval bounds",
 "P16": "model checking of re-polling with fresh wakers against notifications, waker reference accounting",
 "P17": "panic injection enumerated at every call into user code and live handle, combined with schedule exploration",
 "P18": "model checking of concurrent split attempts; every scenario of heap variants also run on static variants",
 "P20": "exhaustive histories and schedules with every library call watched by a checking allocator",
 "P21": "exhaustive histories of waiting, re-polled and cancelled sends, and model checking of senders that queue up one after the other, with an order oracle",
 "P22": "model checking of waiting operations with vain wakeups and held references, step counter of operations that run while nobody else is active",
 "P23": "model checking of composed programs of two and three channels with a deadlock monitor and per-program oracles",
 "P24": "exhaustive histories with leaks at every reference and future, model checking of a leaking thread against others, ring model with occupied slots",
 "P25": "exhaustive operation sequences in which every call into user code (elements, recycling, wakers) may re-enter with any operation, ring model, deadlock and wakeup monitors",
 "P19": "exhaustive histories and schedules with classification oracle on every returned error",
}
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s --tier quick" % i,
    "thorough_cmd": "python3 check.py %s --tier thorough" % i,
    "evidence_file": "evidence/%s.json" % i,
    "technique": "model checking: " + T[i],
    "level": "model_checking",
    "level_note": "Exhaustive within the bounds written to the evidence file (threads, capacity, preemptions, stale reads, spurious failures), directly on the library's code; trusts the scheduler/memory model of mc/ (litmus-tested at each run) and the cfg(thingbuf_mc) shim that stands for std atomics, parking and parking_lot.",
} for i in ids]
hook = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if " hooks:" in l]
m = {"version": 1, "setup_cmd": "bash mc/build.sh std && bash mc/build.sh ns",
     "hooks": {"guard": "cfg(thingbuf_mc)", "enable": "RUSTFLAGS='--cfg thingbuf_mc' THINGBUF_MC_SHIM=/verif/mc/shim/thingbuf_mc.rs (mc/build.sh)", "source_commits": hooks},
     "checks": checks, "not_applicable": [],
     "notes": "One model checker (mc/), one driver (check.py). Replays: mc/target/std/release/mc replay FILE --trace."}
json.dump(m, open("/verif/MANIFEST.json","w"), indent=1); open("/verif/MANIFEST.json","a").write("\n")
