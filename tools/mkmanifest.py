#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property whose check exists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "bounded-exhaustive model checking of the real code: "
T = {
"C01": (B + "all documents of the bounded spaces and all parse-call pairs, against determinism/totality", ""),
"C02": (B + "all documents and all layouts of bounded trees, against an independent grammar model", ""),
"C03": (B + "all good/bad entry combinations and documents, against the grammar model's junk extents", ""),
"C04": (B + "spans of all documents of the bounded spaces, against the grammar model and slice/tiling invariants", ""),
"C05": (B + "all LF/CRLF assignments and both span options on all documents", ""),
"C06": (B + "annotations of every malformed document of the spaces, against the grammar model", ""),
"C07": (B + "parse/serialize/parse on all documents of the spaces", ""),
"C08": (B + "all constructor-built and edited trees within bounds, serialized and parsed back", ""),
"C09": (B + "all trees and single edits within bounds through to_json/from_json, against an own field walk", ""),
"C10": (B + "all single edits and tree pairs within bounds, against a structural comparison model", ""),
"C11": (B + "all trees x handler tables x transformer actions within bounds, against a traversal model", ""),
"C12": (B + "all escape-token strings, code points and number literals within bounds, against an own decoder", ""),
"C13": "explicit-state search over stream operation sequences against a plain cursor model, run on the real stream",
"C14": (B + "all pairs and triples of documents within bounds, against concatenation of their parses", ""),
"C15": (B + "all programs x argument faults within bounds, against the interpreter model's error/fallback accounting", ""),
"C16": (B + "all programs of the bounded grammar x arguments, against an independent interpreter model", ""),
"C17": (B + "all programs with isolation on/off, against the interpreter model and mark stripping", ""),
"C18": (B + "all ordered variant lists x selector values x locales within bounds, against own plural tables", ""),
"C19": (B + "all reference graphs within bounds and all expansion sizes around the limits, against a counting interpreter model", ""),
"C20": "explicit-state search over bundle operation histories against a map model and fresh bundles, run on the real bundle",
"C21": "explicit-state search over operation histories of bundles sharing inputs, deep snapshots compared at every state",
"C22": (B + "all nestings of term and message references within bounds, against the interpreter model's scopes", ""),
"C23": (B + "all call shapes x failing subsets x registries within bounds, against a call-log model", ""),
"C24": (B + "all option combinations x values x locales within bounds, against an ECMA-402 model on exact decimals", ""),
"C25": (B + "all option combinations x instants x zones x locales within bounds, against own zone arithmetic and patterns", ""),
"C26": "explicit-state search over presence matrices x query histories against a fallback-chain model, run on the real object",
"C27": "exhaustive enumeration of file-presence and fault matrices in a scratch directory against a directory model",
"C28": "stateless exploration of all thread schedules up to a preemption bound under a controlled scheduler on the real code",
"C29": (B + "tokens of all documents of the spaces, against text identity", ""),
"C30": (B + "tokens of all documents and layouts of the spaces, against the grammar model's roles", ""),
"C31": "exhaustive enumeration of tag histories, selections and repeated builds with recorded subprocesses against a build-plan model",
"C32": (B + "all corpus files and short documents through the scripts, against library results", ""),
}
NOTE = ("Decided on every case of the finite spaces listed in the evidence file (scopes, with measured state and run "
        "counts); nothing is claimed beyond these bounds. Trusts the reference model named in DESIGN.md, which is "
        "independent of the code under test, CPython, and (runtime checks) babel's locale data.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
        t = T[i] if isinstance(T[i], str) else T[i][0]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i,
                       "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na}, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(na), "not built")
