#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and budgets.json: a property with a budget is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
bud = json.load(open(V + "/budgets.json"))
TECH = {
 "C01": "generated JSON texts, differential against an independent reference parser and document model",
 "C02": "generated documents, output read back by an independent strict JSON parser",
 "C03": "mutated and random byte strings against a reference acceptor, truncation sweeps",
 "C04": "generated documents, output read back by an independent MsgPack decoder",
 "C05": "generated MsgPack in every equivalent form, differential against the document model",
 "C06": "mutated, truncated and random byte strings against a reference MsgPack acceptor",
 "C07": "generated documents, output read back by an independent BSON decoder",
 "C08": "generated BSON documents, differential against the document model",
 "C09": "mutated, truncated and random byte strings against a reference BSON acceptor",
 "C10": "generated YAML block documents, differential against the document they were printed from",
 "C11": "mutated and random YAML, history independence as a metamorphic relation",
 "C12": "load histories compared with a fresh decode (metamorphic)",
 "C13": "random chains of format conversions against the document model (round trips)",
 "C14": "stateful model-based testing against an ordered-map and list model",
 "C15": "generated documents and lookups against a reference conversion table",
 "C16": "generated edits of both sides after cloning, against two independent models",
 "C17": "pairs of equal and minimally different documents against the model's equality",
 "C18": "generated merges against a reference merge",
 "C19": "stateful histories of cached and uncached values, each against its own model",
 "C20": "generated programs run alone and concurrently, transcripts compared, under the race detector",
 "C21": "buffers overwritten after use, documents compared with their model",
 "C22": "random Go types and values, document compared with an independent description",
 "C23": "random Go types and values, round trip into fresh and filled destinations",
 "C24": "generated instants through every route in several time zones, compared with package time",
 "C25": "generated operations on the constants, every other occurrence re-read",
 "C26": "generated file histories in a scratch directory, bytes and documents compared",
 "C27": "random sequences of read-only calls, fingerprints before and after",
 "C28": "stateful model-based testing with a case-folding map model",
 "C29": "stateful model-based testing with a model that has absent nodes, encodings read by independent decoders",
}
NOTE = ("Black-box search over generated cases against an explicit oracle, seeded by VERIF_SEED in eight shards with different time zones; "
        "a pass means no counterexample among the generated cases, not a proof. Trusted: the harness's own reference model, "
        "the Go standard library and pgregory.net/rapid.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in bud:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing: " + TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check is black-box and builds against /repo's working tree. Known findings and repairs: KNOWN_FINDINGS.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
