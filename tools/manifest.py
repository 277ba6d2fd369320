#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DS = "deterministic simulation with fault injection: "
checks = {
 "C01": (DS + "seeded delivery schedules through a simulated io.Reader; stream vs in-memory differential", "exploration"),
 "C02": (DS + "seeded stream failures at any byte (error kinds, data+error, stalls); differential plus reference model", "exploration"),
 "C03": (DS + "seeded delivery schedules and cut-offs, code point sweep; executable UAX #29 reference model", "exploration"),
 "C04": (DS + "seeded delivery schedules and cut-offs, code point sweep; executable UAX #29 reference model", "exploration"),
 "C05": (DS + "seeded delivery schedules and cut-offs, code point sweep; executable UAX #29 reference model", "exploration"),
 "C06": (DS + "seeded delivery schedules and cut-offs, code point sweep; executable reference model of the documented phrase rules", "exploration"),
 "C07": (DS + "seeded joiner configurations, delivery schedules and cut-offs; executable reference model", "exploration"),
 "C08": (DS + "seeded buffer limits, texts around them, delivery schedules; reference model that knows each decision's look-ahead", "exploration"),
 "C09": (DS + "seeded arrival times on a simulated clock; every Read is checked against the reference model's account of determined tokens", "exploration"),
 "C10": (DS + "seeded transfer corruption, garbage and delivery schedules under a statement budget; conservation checks and reference model", "exploration"),
 "C11": (DS + "seeded statement-level schedules of 2-6 callers, cold and warm processes, race detector under the simulated scheduler; solo re-execution and reference model", "exploration"),
 "C12": (DS + "seeded interleaved operation histories over live iterator pairs; cursor model", "exploration"),
 "C13": (DS + "seeded histories of option switches over torn and malformed escape text; independent ECMA-48 recogniser", "exploration"),
 "C14": (DS + "seeded window growth, buffer relocation and overwriting, interleaved streams; monotonicity and isolation checks", "exploration"),
 "C16": (DS + "seeded network faults (refusals, statuses, cut and torn transfers, crashes) and disk faults under the real generator and net/http; comparison with a fault-free run, recovery runs", "exploration"),
 "C17": (DS + "seeded property assignments, delivery schedules and map iteration orders through the real generator and compiler; executable reference model under the drawn tables", "exploration"),
 "C19": (DS + "seeded families of adversarial texts; the count of executed statements is the simulated clock; bound on its growth", "exploration"),
 "C20": (DS + "seeded texts, histories, deliveries and stream failures under the uninstrumented code; every allocated byte is accounted, and weak pointers show what is still referenced", "exploration"),
 "C21": (DS + "seeded histories of crashes, reader failures and panics, full buffers and restarts from the last checkpoint over every interface; differential with an uninterrupted run", "exploration"),
 "C22": (DS + "seeded chains of tokenizers over simulated pipes and within one another's Read, statement-level schedules, failing sources, dying stages, a source that waits for answers; solo re-execution, and the reference model's account of determined tokens", "exploration"),
 "C15": (DS + "seeded histories with split functions that misbehave at a chosen call; cursor model", "exploration"),
}
extra = os.path.join(root, "tools", "manifest_extra.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        checks[k] = (DS + v[0], v[1])
notes = {
 "exploration": "Seeded search, no proof: every run is a repeatable execution of the real code under decided schedules and faults; counts, faults and distinct states are in the evidence file. Trusts the Go toolchain, the instrumenting overlay (yield calls only) and the reference model in sim/ref (validated against the official Unicode test files).",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [
 {"property": "C18", "reason": "pure function of its argument: no schedule, clock, fault, history or interleaving for a simulation to decide (robustness of the predicates on garbage is part of C10, concurrent use part of C11)"}],
 "notes": "No hooks in /repo: instrumentation is a build-time overlay made from the current working tree by sim/cmd/instrument. ./replay.sh FILE replays a reported violation."}
claimed = set(checks)
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in checks:
        t, l = checks[p]
        m["checks"].append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
                            "technique": t, "level": l, "level_note": notes["exploration"]})
    elif p != "C18":
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
