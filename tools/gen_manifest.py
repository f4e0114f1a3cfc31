#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PENDING = set()
TECH = {
    "C01": "property-based testing: generated keys/messages against a reference RFC 6979 signer and the C library",
    "C02": "property-based testing: round trips through every encoding, negatives decided by a reference verifier",
    "C03": "property-based testing: verifier against a reference model on constructed boundary signatures",
    "C04": "property-based testing: recovery against a reference model on constructed boundary cases",
    "C05": "property-based testing: derivation against a reference model and the C library",
    "C06": "property-based testing: ECDH against a reference model, with a digest that exposes its input",
    "C07": "property-based testing: parser against an encoding oracle over valid and mutated encodings",
    "C08": "property-based testing: stateful chains of key operations against a model, canonical-form invariant",
    "C09": "property-based testing: serde round trip and decoder oracle over mutated strings and bytes",
    "C10": "property-based testing: codec oracle, scripted random sources",
    "C11": "property-based testing: stateful tweak sequences against modular arithmetic",
    "C12": "property-based testing: stateful tweak sequences, key pair against model",
    "C13": "property-based testing: combination against the model sum, permutations and groupings",
    "C14": "property-based testing and enumeration: codec oracle",
    "C15": "property-based testing: normalisation oracle and metamorphic verification",
    "C16": "grammar-based fuzzing and enumeration against a DER reference parser and the C library",
    "C17": "grammar-based fuzzing and enumeration against a lax DER reference parser and the C library",
    "C18": "fuzzing of all entry points with debug assertions, differential between debug-checked and release builds",
    "C19": "property-based testing: scalar operations and chains against modular arithmetic",
    "C20": "property-based testing: stateful field register machine with magnitude tracking against modular arithmetic",
    "C21": "property-based testing: group law against an affine model over many representations",
    "C22": "property-based testing: multiplications against a model, exceptional scalars constructed",
    "C23": "complete enumeration of the table entries against the model; generated operations across contexts",
    "C24": "differential property-based testing: a probe built in every feature configuration against the reference model",
    "C25": "property-based testing: generated histories and thread schedules of operations against their isolated results",
    "C26": "property-based testing: memory scan after clearing generated values, in optimised builds",
    "C27": "property-based testing: raw signing against a reference model with constructed nonces",
    "C28": "differential property-based testing: a probe run natively as a 32-bit program and interpreted for a big-endian target, against the reference model",
    "C29": "fuzzing with generated operations and thread programs under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri",
}
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo. `./check <id>` builds harness/ against /repo's working tree in two profiles "
             "(release with the library's debug assertions and overflow checks; plain release) and runs the "
             "property's generated cases in both, then a coverage- and comparison-guided search with an instrumented "
             "build over the same generators and oracles. `./check --replay FILE` reruns a reported case.",
}
for p in props:
    i = p["id"]
    if i in PENDING:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i] + ("" if i in ("C24", "C28", "C29") else "; coverage- and comparison-guided fuzzing of the same checks"),
        "level": "exploration",
        "level_note": "Search over generated inputs biased to the arithmetic and encoding boundaries; finds violations, does not "
                      "prove absence. Trusts the reference model (harness/src/refm.rs), itself compared with the C library by `vh selftest` in setup.",
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
