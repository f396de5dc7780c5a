#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = "Stateful property-based testing: seeded random histories of operations against a plain reference model, shrunk to a minimal choice list"
VALUE = "Property-based testing: seeded random values and initializers against a plain reference model, shrunk to a minimal choice list"
TECHNIQUE = {
    "C01": VALUE,
    "C02": MODEL,
    "C03": MODEL + "; every offset is asked after every step",
    "C04": MODEL,
    "C05": MODEL + "; every component is counted and registered",
    "C06": MODEL + "; under an instrumented allocator, with twice-run determinism, and under Miri",
    "C07": VALUE + "; placement computed independently",
    "C08": VALUE + "; boundary-biased lengths, 128-bit arithmetic as oracle",
    "C09": VALUE,
    "C10": MODEL,
    "C11": VALUE,
    "C12": MODEL + "; with panics injected into user callbacks",
    "C13": VALUE + "; with refused allocations, in child processes",
    "C14": "Generated struct definitions and generated histories on them against a plain reference model",
    "C15": "Generated struct definitions and layout-controller changes against a model of the length expressions",
    "C16": "Generated definitions with one rule broken, next to their valid neighbours, given to the compiler",
    "C17": "Generated misuse programs, next to their correct neighbours, given to the compiler",
    "C18": "Metamorphic property-based testing: a newtype against its inner type",
    "C19": "Stateful property-based testing of iterator protocols against a list model",
    "C20": VALUE + "; every allocator call is counted",
    "C21": MODEL,
    "C22": "Differential property-based testing: the same generated histories in two build profiles",
    "C23": "Generated definitions and uses from every relation of modules, given to the compiler, against a model of Rust's visibility",
    "C24": "Generated compositions of types with thread-bound components, whose Send and Sync are asked of the compiler",
}
NOTE = {
    "C06": "Random histories; red zones, quarantine and Miri see only accesses that the explored histories make.",
    "C16": "The rules broken are those listed in driver/definitions.py; the deciding tool is the pinned stable compiler.",
    "C23": "Visibilities and relations of modules are exhaustive for one level of nesting each way; the deciding tool is the pinned stable compiler.",
    "C24": "Only the negative direction; the deciding tool is the pinned stable compiler.",
    "C17": "The misuses are those listed in driver/misuse.py; the deciding tool is the pinned stable compiler.",
}
DEFAULT = "Random exploration with a fixed number of cases per tier; what was generated is in the evidence file."


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f if l.strip()]
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py setup",
        "checks": [
            {
                "property": p,
                "quick_cmd": "python3 check.py %s --tier quick" % p,
                "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                "technique": TECHNIQUE[p],
                "level": "exploration",
                "level_note": NOTE.get(p, DEFAULT),
            }
            for p in ids
            if p in TECHNIQUE
        ],
        "not_applicable": [],
        "notes": "Checks build the harness (a crate with path dependencies on /repo) in /verif/target; check.py replay FILE runs a recorded violation again. KNOWN_FINDINGS lists the defects that were found and repaired.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
