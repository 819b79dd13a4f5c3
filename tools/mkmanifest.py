#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(s) for s in open(os.path.join(HERE, "properties.jsonl"))]

REPORTS = ("TLC checks the property on every state of the specification's small-journal model %s and every behaviour of "
           "that model is replayed on the gledger built from /repo; in addition random journals are run through it and "
           "TLC accepts or rejects each recorded behaviour. Exhaustive within the model's bounds, sampled beyond them. "
           "Trusts the specification's reading of the statement, TLC and the driver.")
TREE = ("TLC checks the invariants of AccountTree.tla on every history of up to four operations of the model and on long random "
        "histories, and each transition's operations are replayed on package journal, comparing everything its API "
        "shows. Exhaustive within the bounds, sampled beyond them. Trusts the specification, TLC and the harness.")

PARSE = ("TLC checks Handlers.tla on every behaviour of MC24 (small journals with every failing point, refusal and set of "
         "handlers), each of which is replayed on package parser through readers of several kinds; in addition random journals "
         "are read so and TLC accepts or rejects each recorded behaviour. Exhaustive within the bounds, sampled beyond them. "
         "Trusts the specification, TLC and the harness.")

LEDGER = ("TLC checks the properties of Ledger.tla on every history of up to four operations after each of several beginnings and on "
          "long random histories, each of which is replayed on package journal, comparing everything that can be observed. "
          "Exhaustive within the bounds, sampled beyond them. Trusts the specification, TLC and the harness.")

FILTERS = ("TLC checks the properties of Filters.tla on every history of up to two operations after each of several beginnings and on "
           "long random histories with random patterns, each of which is replayed on package reporting, comparing every answer. "
           "Exhaustive within the bounds, sampled beyond them. Trusts the specification, TLC and the harness.")

checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i,
        quick_cmd="python3 tools/check.py " + i,
        thorough_cmd="python3 tools/check.py " + i,
        technique="TLA+ specification checked with TLC; its behaviours replayed on the code and recorded executions validated against it",
        level="model_checking",
        level_note=TREE if i in ("C17", "C23") else PARSE if i == "C24" else LEDGER if i == "C25" else FILTERS if i == "C26" else REPORTS % ("MC" + i[1:])))

json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
               notes="Every check rebuilds gledger from /repo; the tier comes from VERIF_TIER, the seed from VERIF_SEED."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
