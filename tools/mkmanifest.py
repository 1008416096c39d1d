#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "model-based random testing of rule sets and sessions against a reference evaluator",
 "C02": "model-based random testing; set-with notes reveal the phases each rule acts in",
 "C03": "random expression trees evaluated by a reference evaluator",
 "C04": "generated address/pattern pairs against a reference matcher",
 "C05": "generated names and patterns against a reference matcher",
 "C06": "generated addresses against a reference classifier",
 "C07": "generated greetings against a reference classifier",
 "C08": "generated addresses and netblocks against an independent bit-wise matcher",
 "C09": "generated DNS contents and faults against a reference verifier",
 "C10": "generated MX/address data and faults against a reference classifier",
 "C11": "generated blocklist zones against a reference lookup",
 "C12": "model-based random testing of with-options",
 "C13": "model-based random testing of sessions with null senders",
 "C14": "model-based random testing of recipient rules after RCPT TO",
 "C15": "stateful random testing over histories of breakages and repairs",
 "C16": "grammar-based generation plus token and character mutation, against an independent parser; layout metamorphism",
 "C17": "generated pattern files and changes against a reference reader",
 "C18": "random interleavings and parallel sessions against per-session models, plus the race detector",
 "C19": "generated messages and envelopes, round trip through the save file",
 "C20": "stateful random testing of repeated and differing messages",
 "C21": "generated file faults and kills at random points, checked against disk contents",
 "C22": "model-based random testing of interleaved sessions against the logs",
 "C23": "stateful random testing over histories and time, against a reference model",
 "C24": "stateful random testing over TLS histories and time, against a reference model",
 "C25": "generated -conncfg files and local addresses against a reference matcher",
 "C26": "fuzzing of client byte streams and of rule, pattern and connection files, with leak and liveness checks, race detector on",
 "C27": "model-based random testing of option sets",
 "C28": "generated option combinations against a start-up oracle",
 "C29": "stateful random testing, counters compared with the model's totals",
}
T["C30"] = "stateful random testing over histories and time; do-nothing log and notices against a reference model"
T["C31"] = "stateful random testing over histories and time; published tables against the history"
NA = {}
base = ("Random exploration: the property held on every generated case (counts in the evidence file). "
        "The real sinksmtp built from /repo's working tree runs as a process and is judged only by what clients, files and logs show. "
        "Trusted: the harness's reference model, its stand-in for the smtpd library (not available offline) and the build overlay that supplies DNS, clock and file faults.")
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique="property-based testing: " + T[i],
        level="fault_enumeration" if i == "C21" else "exploration", level_note=base))
m = dict(version=1, setup_cmd="bash tools/setup.sh",
    checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: the harness is added at build time with go build -overlay. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
