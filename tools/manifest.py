#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online checker of the emitted byte stream (independent strict JT808 parser) under partial writes and concurrent answers and commands",
 "C02": "differential monitor: independent encoder vs directory and location views, random chunking",
 "C03": "fault injection into the byte stream with state-unchanged and liveness monitors",
 "C04": "online trace checker of request/answer correlation and order on pipelined connections",
 "C05": "recorded concurrent histories checked for linearizability (porcupine), with injected yields, plus exact model on sequential histories",
 "C06": "state monitor on the directory under hostile and ordinary authentication histories",
 "C07": "side-effect monitor around every message of an unregistered terminal",
 "C08": "removal/re-registration histories, virtual-time differential timelines, linearizability of concurrent histories",
 "C09": "read-after-acknowledge monitor and concurrent monotone-read checker",
 "C10": "recorded concurrent histories with listings checked for linearizability (porcupine), injected yields",
 "C11": "command-delivery monitor on all live and stale connections under reconnect, address reuse and removal histories",
 "C12": "serial-number monitor over commands and acknowledgements, sequential, concurrent and across wrap-around",
 "C13": "wire and end-to-end differential monitor of parameter lists (HTTP, platform, simulator) against an independent codec",
 "C14": "differential monitor of interleaved, lossy and repeated fragment transfers against the effect of the whole message",
 "C15": "fault and attack injection with bystander monitors (answers, records, connections) and process-liveness monitor",
 "C16": "Go race detector and stall watchdog over stress workloads with injected yields, virtual and real time",
 "C17": "resource monitors (descriptors, goroutines, sessions, resident memory) around connection endings of every kind",
 "C18": "timed trace checker over a directory sampled in virtual time, with messages placed at the check instants",
 "C19": "differential round-trip monitor of the model codec against an independent codec, header attribute words exhaustively",
 "C20": "trace checker playing the platform against the simulator process",
 "C22": "offline checker of the complete log output (records, levels, destinations, rolled files) against the bytes recorded on all connections",
 "C21": "transcript comparison of identical traffic under many logging configurations",
}
EXTRA = {}
NA = []
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    checks = []
    for p in props:
        if p not in T: continue
        checks.append({
            "property": p,
            "quick_cmd": "bash run.sh " + p,
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p,
            "technique": "runtime monitoring: " + T[p],
            "level": "exploration",
            "level_note": EXTRA.get(p, "No violation on the executions observed (counts in the evidence file); inputs, schedules and timings not exercised are not covered. Trusts the independent codec in harness/jt, the Go runtime and, for virtual time, testing/synctest."),
        })
    na = NA + [{"property": p, "reason": "check not built yet"} for p in props if p not in T and p not in [n["property"] for n in NA]]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: interleaving pressure is injected at build time through a go build -overlay generated from the working tree, so there is nothing to guard. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
main()
