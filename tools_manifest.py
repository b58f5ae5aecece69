#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
CLAIMED = {
 "C01": ("exploration", "seeded simulation of a closed-loop client over a simulated wire with virtual arrival times; any poll beyond what was sent is the deadlock"),
 "C02": ("exploration", "seeded simulation of parsers stopped and restarted on one shared stream, with foreign readers in between; compared with one uninterrupted parse"),
 "C03": ("fault_enumeration", "seeded programs, each cut at every character; results of the cut run compared with the uncut run and with what the generator knows to be open"),
 "C04": ("exploration", "seeded corrupted, cut and spliced texts (and text rebuilt around known openers); every position in every error checked against the delivered text"),
 "C05": ("exploration", "seeded histories of public calls over whole and corrupted texts; position checked against what was delivered after every call"),
 "C06": ("fault_enumeration", "seeded plans, the builder failing at every one of its calls in turn; compared with the fault-free run of the same plan"),
 "C07": ("fault_enumeration", "seeded plans, a panic injected at every source read and builder call in turn, then reuse and drop; custody and memory accounted for"),
 "C08": ("exploration", "seeded failing texts, continued after the error by calls in every style; delivered tokens accounted for"),
 "C09": ("exploration", "seeded schedules of parsers on baton-scheduled threads or nested in one another's callbacks, with failures, panics and stalls; each transcript compared with its solo run"),
 "C10": ("exploration", "seeded texts, call histories, speeds and injected builder failures over replicas with every provided builder and wrapper; compared answer by answer with a recording builder"),
 "C11": ("fault_enumeration", "seeded plans, stopped by every cut, builder failure and abandonment point; every value handed out accounted for"),
 "C12": ("exploration", "seeded programs, schedules, drivers and later stream faults; delivered trees compared with the generator's own trees"),
 "C13": ("exploration", "seeded programs rich in here-documents, plus cuts inside bodies, compared with an executable model of body capture"),
 "C14": ("exploration", "seeded streams over counted, hint-giving, reviving sources; copies taken at arbitrary instants and stepped in arbitrary order; compared with the text and the uninterrupted pass"),
 "C15": ("exploration", "seeded token and character soup, histories of every public call continued after errors, sources that go on after their end; calls must return and make progress"),
 "C16": ("exploration", "seeded call histories over whole and faulty streams, run with and without random probes between the calls; compared call by call"),
 "C17": ("exploration", "seeded streams parsed through seeded feeds, drivers and switch points; outcomes compared with repeated calls over a plain lexer"),
 "C18": ("exploration", "seeded long periodic sessions with live-heap accounting, and sessions ended by faults; live bytes must stop growing and return to zero"),
 "C19": ("exploration", "seeded texts (nested, repeated, stretched, broken) and sessions of k and 2k rounds, with builder faults; exact allocation cost against a per-character bound and against twice the shorter session"),
}
NA = {
 "C30": "operator grouping is a pure function of the input text: no schedule, fault, time or history enters into it; simulation has nothing to decide (C12 compares whole trees as a by-product)",
 "C31": "arithmetic grouping is a pure function of the input text: no schedule, fault, time or history enters into it (C12 compares whole trees as a by-product)",
 "C32": "quoting rules are a pure function of the input text: no schedule, fault, time or history enters into them (C12 compares whole trees as a by-product)",
 "C33": "substitution operators are a pure function of the input text: no schedule, fault, time or history enters into them (C12 compares whole trees as a by-product)",
 "C34": "descriptor validation is a pure function of the input text: no schedule, fault, time or history enters into it",
 "C35": "display forms are pure functions of single values: nothing is scheduled, timed, read or able to fail",
}
props = [json.loads(l) for l in open('properties.jsonl')]
ids = [p['id'] for p in props]
checks = []
for i in ids:
    if i in CLAIMED:
        lvl, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
          "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
          "level": lvl, "level_note": note})
na = [{"property": i, "reason": NA.get(i, "not yet claimed: the check is being built")} for i in ids if i not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json','a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
