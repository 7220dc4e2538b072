"""Writes MANIFEST.json (run by hand when a check is added)."""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]

TECHNIQUE = {
    "C01": "property-based testing (Hypothesis): angles of explicitly boosted four-momenta as reference model, metamorphic relations",
    "C02": "property-based testing: round trip between invariants, masses and four-momenta; closure of the angle definitions",
    "C03": "property-based testing against an independent numerical implementation of the DPD formula",
    "C04": "property-based testing, metamorphic: change of the reference subsystem",
    "C05": "property-based testing, metamorphic: cyclic renumbering of the final state",
    "C06": "property-based testing, differential: LS-basis model versus helicity-basis model with recoupled couplings",
    "C07": "property-based testing, differential between formulation options; enumeration of summed helicities against a model",
    "C08": "property-based testing of an invariant (closure and defaults) over generated decays, options and dynamics",
    "C09": "property-based testing, metamorphic: splitting, reordering and scaling of decay chains",
    "C10": "stateful model-based testing of histories of registrations, lookups and formulations",
    "C11": "property-based testing against closed formulas, metamorphic reductions",
    "C12": "property-based testing against an independent formula, for all flags",
    "C13": "property-based testing against brute-force enumeration of angular momentum coupling",
    "C14": "property-based testing with generated valid and defective decays against a reference model of the tree",
    "C15": "property-based testing of a conversion: reference model, metamorphic reordering/duplication/renumbering",
    "C16": "property-based testing against a reference implementation; idempotence and order independence",
    "C17": "property-based testing: reference model of relabelling, closure under permutations",
    "C18": "property-based testing: parsing the rendered text back (round trip)",
    "C19": "stateful testing of histories over several processes with a shared cache, differential against numpy evaluation",
    "C20": "structure-aware generation of model definitions and of defects, against a reference model",
    "C21": "structure-aware generation of model definitions against an independent numerical implementation",
    "C22": "structure-aware generation of function definitions against closed formulas",
    "C23": "property-based testing: differential between processes with different hash seeds and histories; round trips through copying and pickling",
}

checks = []
for prop, technique in TECHNIQUE.items():
    if not (HERE / "checks" / f"{prop.lower()}.py").exists():
        continue
    checks.append({
        "property": prop,
        "quick_cmd": f"./check {prop}",
        "thorough_cmd": f"./check {prop} --tier thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": "generated-input search with an explicit oracle; bounds and oracle in DESIGN.md",
    })
manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
(HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
