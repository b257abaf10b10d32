#!/usr/bin/env python3
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = "deterministic simulation with fault injection: seeded search over schedules, network and fault sequences of the real engine in one process under a simulated kernel"
NOTE = {
 "C01": "Exploration. Every delivery is compared with what the peer meant (reference encoder and dictionary parser of the harness), per connection order included; completeness is checked when the run has come to rest.",
 "C02": "Exploration. Every delivery must be a whole undamaged planned message; cuts and damage at random offsets.",
 "C03": "Exploration. Honest peers and late probes must be served in the presence of hostile ones; panics are tolerated only if service is unaffected.",
 "C04": "Exploration. Each peer's byte stream is parsed into the exact serialisations sent; per-thread order, duplicates, gaps and torn tails are checked.",
 "C05": "Exploration. Each message a peer receives must be for a session that peer had identified itself as on that connection.",
 "C06": "Exploration, bounded liveness: each answer must have arrived when everything comes to rest, before any fault phase ends.",
 "C07": "Exploration with bind/accept faults, bounded liveness after they stop; checked against the real engine's accept loop.",
 "C08": "Exploration. Descriptor table and scheduler activity are inspected at every rest of the system; 60000 steps without any progress count as spinning.",
 "C09": "Exploration over messages and hash seeds; wire bytes are judged by an independent parser.",
 "C10": "Exploration; bytes read ahead of the application and live heap are metered by the simulated kernel and allocator.",
 "C11": "Exploration over windows, zones and clock jumps; oracle is an independent minute-of-week computation over zone offsets.",
 "C12": "Exploration over clock jumps; the stamp must be one of the clock readings the engine was given during the call.",
 "C13": "Exploration over file-system behaviours at start-up.",
 "C14": "Exploration of thread interleavings (system calls and allocations); per-key linearizability of the recorded registry calls, deadlock detection by the scheduler.",
 "C15": "Exploration over structural breakages in running connections with valid neighbours.",
}
NA = {
 "D01": "The dictionary loader is a pure function of one XML text (single thread, no clock, one file read): no schedule, fault or history can change its answer, so simulation would only re-run unit tests; its file reading under faults is covered by C13 and its use by C01/C09/C15.",
 "D02": "Setting lookup is a pure function of the configuration text; nothing nondeterministic takes part. Inheritance is exercised end to end by C13 and C11.",
 "D03": "Equality and hashing of session identities are pure functions of two values; no nondeterminism to simulate.",
 "D04": "Constants generated at build time from the specification: nothing runs, so there is nothing to simulate.",
}
checks = []
for p in props:
    if p['id'] in NA: continue
    i = p['id']
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": T, "level": "exploration",
      "level_note": NOTE[i] + " Trusts the simulated kernel; threads interleave at system calls and allocations."})
m = {"version": 1, "setup_cmd": "./check.sh build",
 "hooks": {"guard": "--cfg fix_rs_sim", "enable": "RUSTFLAGS='--cfg fix_rs_sim' (check.sh, sim/.cargo/config.toml); sim/engine compiles /repo/src/main.rs as a library",
           "source_commits": ["e5213be"]},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "Replay a reported file with ./check.sh replay <file>. See DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
