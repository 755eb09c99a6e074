"""Writes MANIFEST.json from the list of properties."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C05": "event monitor of quantile calls against reference CDF, warning monitor",
    "C06": "event monitor with reference CDF, warning monitor",
    "C11": "history monitor with shadow objects and fingerprints of operands",
    "C18": "file round-trip monitor with independent parser, descriptor-leak sanitizer",
    "C19": "reference-table oracle over all elements, live objects observed",
    "C20": "cross-object consistency monitor with reference masses",
    "C21": "reference-table oracle over all elements",
    "C22": "file round-trip monitor with independent generator, descriptor-leak sanitizer",
    "C28": "history monitor with argument, aliasing and process-state sanitizers",
    "C29": "forced thread schedules (PEP 669 line events) with sequential oracle",
    "C30": "metamorphic monitor: scalar, layout, shape and permutation variants",
    "C34": "event monitor with the distribution and callables of the user as oracle",
    "C35": "cross-object consistency monitor over all elements",
    "C36": "exception monitor with history and descriptor-leak sanitizer",
    "C37": "metamorphic monitor: rescaled copies of objects",
    "C38": "end-to-end monitor of generated experiments against shadow reference model",
    "C40": "metamorphic monitor: calling forms compared with each other and with the reference model",
    "C41": "attribute monitor with reference model, before and after use",
    "C42": "metamorphic monitor: copies and restored objects compared with the original",
    "C39": "process monitor over installed copies",
    "C31": "process monitor over interpreter configurations",
}
DEFAULT = "runtime probes with event monitors against shadow reference model"


def main():
    checks = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        checks.append({
            "property": i,
            "quick_cmd": "./check " + i,
            "thorough_cmd": "./check " + i,
            "evidence_file": "evidence/{}.json".format(i),
            "technique": TECHNIQUE.get(i, DEFAULT),
            "level": "exploration",
            "level_note": "Seeded runs of the real library under external probes; a verdict covers the executions observed "
                          "(counts and signatures in the evidence file), not all inputs. Tolerances and domain limits are in DESIGN.md.",
        })
    m = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: the probes are attached from outside at run time. "
                 "Known and fixed findings are in known_findings.json. './check <id> --replay FILE' repeats a recorded violation.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
