"""Writes MANIFEST.json for the properties of properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
NA = {
 "P19": "Pure functions of their arguments: no scheduling, time, randomness, I/O, failure or history for a simulator to decide. Simulating them would only be random input testing. Their effect on the system is judged by P01-P18, whose oracles use exact predicates of their own.",
 "P20": "Needs a window, an OpenGL driver and their event loop, none of which exist here; the module is a demonstration aid that neither the library's results nor the program depend on, and a stub of the driver would be all that is tested.",
}
LIB = ("deterministic simulation: seeded search over histories and hash-key schedules; "
       "reference model and geometric oracles over every step")
CLI = ("deterministic simulation: the shipped binary under a simulated OS (files, stdout, clock, randomness), "
       "seeded faults and crashes, oracle over the recorded history")
LIBNOTE = ("Sampled, not exhaustive: no violation in the seeded runs the evidence counts. Real library code, "
           "every hash key and operation order chosen by the seed. Trusts the reference model and oracles in sim/src, "
           "which are written with exact predicates; decisions rounding may tip are not judged.")
CLINOTE = ("Sampled, not exhaustive. Real binary and libc; the shim decides reads, writes, opens, clock, randomness and "
           "death. Trusts the kernel on the scratch files and the Python-free oracle in sim/src/cli.rs.")
checks = []
for i in ids:
    if i in NA: continue
    cli = i in ('P14','P15','P16','P17')
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
      "evidence_file": "evidence/%s.json" % i, "technique": CLI if cli else LIB, "level": "exploration",
      "level_note": CLINOTE if cli else LIBNOTE})
m = {"version": 1, "setup_cmd": "./check.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: getrandom(2), the allocator and, for the command line program, libc's file and clock calls are the seams. Unlisted behaviour and its reasons: DESIGN.md."}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
