#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property some scenario decides."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = set()
for f in glob.glob(V + "/sim/scen/*.go"):
    for l in open(f):
        if re.match(r'var _ = (register|reg[A-Z]\w*)\(', l) or 'Props:' in l:
            claimed |= set(re.findall(r'"([CNP]\d\d)"', l))
REASON = {
 "P01": "Encoders and decoders are sequential pure functions of one value or byte slice: no thread, clock, I/O or second party for a simulated schedule or fault to act on. Their behaviour under concurrent use is C12 and the framing of the stream is N01, both claimed; generating values here would be plain property-based testing, not this family.",
 "P02": "Decoding malformed bytes is a sequential pure function of those bytes: nothing in it depends on a schedule, a fault or time, so the simulator has nothing to decide. Malformed frames from peers, where other traffic is at stake, are N11 and N01, both claimed.",
}
TECH = "deterministic simulation with fault injection: seeded search over schedules, clock and fault sequences of the real code, oracles on the recorded history"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd="bash bin/check.sh %s" % i, thorough_cmd="bash bin/check.sh %s" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH, level="exploration",
            level_note="Sampled, not exhaustive: the property held in every simulated run of the seeds tried (counts in the evidence file). Trusted: the simulator's models of the scheduler (sequentially consistent memory, preemption at every synchronisation operation and before statements that touch shared memory), of channels, sync, time and TCP, the source rewriting, and the oracles in sim/scen."))
    else:
        na.append(dict(property=i, reason=REASON.get(i, "No check for it yet.")))
m = dict(version=1, setup_cmd="bash bin/build.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are put in by rewriting a build-time overlay of the working tree (go build -overlay). VERIF_SEED seeds the search, VERIF_TIER=thorough searches for 600 s, VERIF_SECS overrides it.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
