#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
NOTES = {
 "default": "Runtime exploration: the real contract code runs in a simulated chain under random hostile scenarios; an online monitor written independently of the contract judges every operation. Says nothing about histories that were not generated; trusts the simulated bank/cw20 ledger and the monitor's reference.",
 "C19": "Every tick of the range is converted and judged; prices between ticks, spacings and bitmaps are sampled.",
 "C20": "Sampled operands with directed rounding and overflow boundaries for every operation and type pair, judged by exact wide integers.",
 "C21": "The SDK is compiled natively (hook for its JavaScript tick list) and run on the contract's own query answers next to the contract; sampled states and arguments.",
 "C22": "Contract and SDK helpers on sampled amounts, ranges and prices, judged by exact arithmetic and the deposit formulas.",
}
T = {
 "C19": "runtime monitor over exhaustive ticks and sampled prices/bitmaps, exact oracle",
 "C20": "runtime monitor of every arithmetic result against exact wide integers",
 "C21": "differential runtime monitor: SDK versus contract on the same observed state",
 "C22": "runtime monitor of helper results against exact arithmetic and deposits",
 "C04": "runtime monitor of attacker balances over forked attack sequences",
 "C12": "runtime monitor comparing quotes, routes and executions on forks",
 "C15": "runtime monitor: list queries against the set of items observed",
 "C27": "differential runtime monitor: migrated and unmigrated forks run side by side",
 "C26": "runtime monitor of every emitted event against the observed state change",
 "C01": "runtime conservation monitor over token ledgers and forked liquidations",
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
skip = set(sys.argv[1:])
m = {"version": 1, "setup_cmd": "bash ./setup.sh",
 "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (check.sh, for C21 and C22 only)", "source_commits": ["7b8b1fb"]},
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in skip:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash ./check.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": T.get(i, "online runtime monitor over random hostile scenarios on the real contract"),
      "level": "exploration", "level_note": NOTES.get(i, NOTES["default"])})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "a").write("\n")
