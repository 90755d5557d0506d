#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = "symbolic execution of the compiled crate (LLVM IR from /repo's source) + SMT (z3), counterexamples replayed natively"
N = {
"C01": "Against an independent FIPS 180-4 reference: all contents of every enumerated length, and one step from an arbitrary chaining value/length at every fill level; accelerated and portable code.",
"C02": "All chaining values, blocks and CPU-feature bits at once; both paths against the same reference; every SHA instruction reached must be implied by the reported features.",
"C03": "As C01 for the three SHA-512 variants.",
"C04": "As C01 for SHA-1.",
"C05": "As C01 for RIPEMD-160.",
"C06": "All keys and contents of every enumerated length, and from an arbitrary reachable state with arbitrary length.",
"C07": "All contents and all engine states for enumerated piece sizes around block boundaries; 15 engines.",
"C08": "All contents and engine states for enumerated buffer sizes; both writer interfaces.",
"C09": "All keys and messages of the enumerated lengths against RFC 2104 over the reference hashes.",
"C10": "All states, all lengths below 2^60; the refusal for every one of the 2^64 lengths.",
"C11": "All tags and messages of the enumerated lengths; const_hash against the reference and the run-time hash.",
"C12": "Four further builds each against the same references as the default build.",
"C13": "Every value in every text form, every ASCII string of the right length, wrong lengths and multi-byte characters as enumerated.",
"C14": "Every value and every candidate text or byte string of the enumerated lengths through the serde data model.",
"C15": "Every value and every slice content; slice lengths and index ranges enumerated.",
"C16": "Every pair of values of every type.",
"C17": "Every pair of slices of the enumerated lengths, checked and optimised builds.",
"C18": "Taint plus solver: no branch, address or length in the LLVM code of five builds can differ between two contents; counterexamples confirmed by differing native instruction traces.",
"C19": "Every load/store/branch/trap of the other harness runs, five builds, is a proof obligation.",
"C20": "Schema length and pattern against every serialized value.",
}
checks = []
for l in open("properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=T, level="model_checking",
        level_note=N[i] + " Bounded: holds for every value within the bounds listed in the evidence file and DESIGN.md. Trusts rustc/LLVM's IR as the meaning of the source, the interpreter (checked against native runs), z3, and the references in harness/src/spec.rs."))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
    notes="No hooks: everything is reached through the public API. known_findings.txt records four repaired defects."),
    open("MANIFEST.json", "w"), indent=1)
