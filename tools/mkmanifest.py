#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import run
SCHED = ("the library's own code, hooked at every atomic, cell, lock, park and clock access, runs seeded random programs in "
         "fibers under a hostile scheduler (random, PCT, long pauses, solo runs; stale reads allowed by the memory model, "
         "weak-CAS failures, spurious wakeups, clock jumps)")
ORACLE = {
    "C01": "history checker (each accepted id received exactly once, contents checksummed)",
    "C02": "history checker (real-time order of acquired places against order of receives)",
    "C03": "exact sequential reference model, and bounds on the number of elements over every operation's interval",
    "C04": "vector-clock race detector on slots and elements, borrow tracking, Miri and ThreadSanitizer",
    "C05": "lifecycle monitor of every element (made, alive, dropped once, none left), Miri leak and UB checks; lives across the 32-bit counter wrap-around",
    "C06": "quiescence oracle (receiver asleep with a completed message next), deadlock and livelock detection",
    "C07": "quiescence oracle (channel empty, receiver asleep, sender still asleep), deadlock and livelock detection",
    "C08": "closing oracle over the history of handles and messages, quiescence oracle",
    "C09": "closing oracle over the history of handles and sends, quiescence oracle",
    "C10": "all of the oracles under cancellations and timeouts at every point, waker accounting, Miri",
    "C11": "virtual-time oracle (early, late, missed), and real-time probes",
    "C12": "solo runs: all other tasks frozen at an arbitrary point, own steps bounded",
    "C13": "element-state monitor (clean when handed out), creation count, per-collection policy model; lives across the 32-bit counter wrap-around",
    "C14": "allocator hook that counts inside every operation, creation count",
    "C15": "racing splits: exactly one pair, destruction monitor, Miri",
    "C16": "panics injected into constructors, policies, closures, wakers and between operations; lifecycle and history monitors, Miri",
    "C17": "identity of returned payloads, agreement of variants, queries and texts with the recorded state",
    "C18": "all oracles and Miri on the builds without std, with and without alloc (spin lock included)",
    "C19": "observation of Send and Sync of every public type for every combination of element and policy",
    "C20": "Miri, AddressSanitizer, vector-clock race detector, lifecycle and borrow monitors",
}
checks = []
for p in [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]:
    i = p["id"]
    eng = []
    for j in run.JOBS[i]:
        n = {"sched": "monitored scheduler", "free": "native stress", "miri": "Miri", "traits": "trait probe", "narrow": "32-bit run"}[j["engine"]]
        n = {"f-tsan": "ThreadSanitizer stress", "f-asan": "AddressSanitizer stress"}.get(j["variant"], n)
        if n not in eng:
            eng.append(n)
    note = "Held on the executions listed in the evidence file; not a proof. "
    if any(j["engine"] == "sched" for j in run.JOBS[i]):
        note += "Engine: " + SCHED + ". Trusts that the hooks see all shared accesses and that the fibers' schedules are schedules of threads. "
    if any(j["engine"] in ("free", "miri") for j in run.JOBS[i]):
        note += "The unhooked library also runs on real threads (" + ", ".join(e for e in eng if e != "monitored scheduler") + ")."
    if i == "C19":
        note = "Complete for the listed types and four element/policy classes each; decided on the compiled library in the three feature configurations."
    checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick",
                       thorough_cmd=f"python3 run.py check {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + ORACLE[i] + " [" + ", ".join(eng) + "]",
                       level="exploration", level_note=note))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="--cfg thingbuf_monitor (RUSTFLAGS)",
                    enable='RUSTFLAGS="--cfg thingbuf_monitor" cargo build --offline in /verif/harness (run.py does this)',
                    source_commits=[l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("monitor:")][::-1]),
         checks=checks, not_applicable=[],
         notes="run.py replay <file> runs a recorded violation again with a trace. Findings: KNOWN_FINDINGS.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
