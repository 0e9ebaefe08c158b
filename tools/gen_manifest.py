#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property that has a props/<id>.cpp"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: grammar-directed text generation against a reference evaluator",
    "C02": "fuzzing: random bytes, token soup and mutated texts against an independent recogniser",
    "C03": "property-based testing: print/parse round trip on random trees with a rounding-error bound",
    "C04": "property-based testing: random doubles, canonical-form and round-trip oracle",
    "C05": "property-based testing: random constant expressions, bitwise differential against a reference interpreter",
    "C06": "property-based testing: random evaluation histories with policy switches against a reference interpreter",
    "C07": "stateful property-based testing: operation histories over a pool of expressions against recipes, allocation balance",
    "C08": "property-based testing: metamorphic value preservation with a rounding-error bound, idempotence",
    "C09": "property-based testing: symbolic derivative against forward-mode jets of the reference model",
    "C10": "property-based testing: k-th and mixed derivatives against multivariate jets of the reference model",
    "C11": "property-based testing: random expressions with planted non-differentiable operators, expected-exception oracle",
    "C12": "property-based testing: structural differential against reference simultaneous substitution",
    "C13": "property-based testing: generated deep/large shapes run on a 256 KiB stack with closed-form oracles",
    "C14": "property-based testing: random matrices and slices against naive reference arithmetic",
    "C15": "property-based testing: integer matrices against exact (Bareiss) determinants and adjugates",
    "C16": "property-based testing: integer systems of known rank against exact rational elimination",
    "C17": "property-based testing: symbolic against numeric matrices, evaluated",
    "C18": "property-based testing: Jacobian entries against jets of the reference model",
    "C19": "property-based testing: random nonlinear systems, residual invariant of every returned result",
    "C20": "fuzzing: hostile systems and starting points, bounded-work and exception-type oracle",
    "C21": "property-based testing: systems with known unique or basin-guaranteed roots",
    "C22": "stateful (model-based) property-based testing against a std::map model",
    "C23": "stateful property-based testing: query after a random history against the same query in a fresh process",
    "C24": "differential fuzzing: random API scripts run on the library and on the single header",
    "C25": "property-based testing: text compared with a reference formatter over cell texts",
    "C26": "property-based testing: line searches against reference criteria over random functions",
    "C27": "property-based testing: generated mistakes at known places against the expected kind, position and text",
    "C28": "property-based testing: one expression built in many random ways, compared pairwise; random doubles and names",
    "C29": "stateful property-based testing: random scripts in parallel threads under ThreadSanitizer against the same scripts run alone",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i + ".cpp")):
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
            "level_note": "Random search: no violation among the generated cases (counts in the evidence). Trusts the reference model in harness/, libm and the compiler; "
                          "quick runs sanitized library sources and the optimised single header, thorough adds more builds and libFuzzer.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
