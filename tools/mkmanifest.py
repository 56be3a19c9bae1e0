#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
D = "seeded deterministic simulation of the real executable (threads, clock, file system, pipes and child processes under an LD_PRELOADed simulator)"
J = "seeded deterministic simulation of the JavaScript in Node (every asynchronous step, call and failure decided by the scheduler)"
T = {
 "C01": D + "; crash, power loss, disk-full and error injection at every call of the write path, checked after every file system mutation and in every post-crash disk image",
 "C02": D + "; per-file fault injection into parallel runs compared with solo runs",
 "C03": D + "; exit status recomputed from what the simulator saw happen",
 "C04": D + "; journal of mutations checked against the files entitled to change",
 "C05": D + "; reported lists compared with the rewrites the simulated disk saw complete",
 "C06": D + "; differential: the same workload under many schedules, thread counts and enumeration orders against solo runs",
 "C07": D + "; scripted formatter processes over bounded pipes against an executable formatter model",
 "C08": D + "; failing scripted formatters and spawn faults against an executable formatter model",
 "C09": D + "; hostile scripted formatters and clock jumps, bounds in virtual time",
 "C10": D + "; simulated process table checked at the end of every run",
 "C11": D + "; faults on standard input and output at arbitrary bytes, stream compared with the concatenation of solo outputs",
 "C12": D + "; damaged configuration files and I/O errors while loading",
 "C13": D + "; differential: random configuration cascades (and edits in the middle of the run) against a reference merge given as one --config file",
 "C14": D + "; random trees, links, cycles and walk faults against a reference walk",
 "C15": D + "; random trees, patterns, ignore files and walk faults against a reference matcher",
 "C16": D + "; histories of crashed and faulty runs followed by a clean one, compared with an undisturbed run",
 "C17": J + "; reference state machine",
 "C18": J + "; reference status and argument mapping",
 "C20": D + "; long runs of failing, hanging and faulty files and formatters, with descriptors and threads counted at every call",
 "C19": D + "; chunked standard error of concurrent workers parsed into the expected whole lines",
}
N = {
 "C01": "The simulated disk is a model of POSIX semantics with a page cache and an ordered metadata journal; after a power loss any subset of unsynced pages and any journal prefix at or after the last commit may survive. Sampled, not exhaustive.",
 "C17": "The wasm-bindgen module, the file system and fetch are stand-ins; the wrapper and both loaders are the working tree's TypeScript. Sampled schedules; small cases are covered many times over.",
 "C18": "Process creation, module resolution and process globals are stand-ins that act as Node documents them, for all supported platforms; all platforms x fates and platforms x argument lists are run first, then seeded random ones.",
}
G = "Sampled executions of the unmodified release-like build under a libc-level simulator: exactly repeatable from the seed, faults and schedules chosen by seeded search; not exhaustive. Trusts the simulator's model of Linux and the oracle in driver/src; alarms are re-run twice before they are reported."
NA = "A pure function of the document text and the options: no schedule, clock, I/O, fault or second party influences it, so a simulator has nothing to decide."
REASON = {
 "C30": NA, "C31": NA, "C32": NA + " (Stack use and termination depend on the text only.)", "C33": NA, "C34": NA, "C35": NA, "C36": NA, "C37": NA,
 "C38": "Validation of one parsed value: a pure function of the configuration text, with no fault, schedule or time to inject (an unusable configuration's effect on a run is C12).",
 "C39": NA,
 "C40": "A comparison of three pure option mappings (and the wasm32 target is not installed here); no nondeterminism to simulate.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "technique": T[i], "level": "exploration", "level_note": N.get(i, G)})
    else:
        m["not_applicable"].append({"property": i, "reason": REASON[i]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
