#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MACHINE = "exhaustive bounded exploration of (rule set, text) pairs on the real parser, each trace compared with an explicit-state PEG machine"
READER = "exhaustive bounded exploration of peg texts on the real code, each one compared with a reference reader of the notation (explicit goals)"
INV = "exhaustive bounded exploration of the real code, checking an invariant on every execution"
T = {
 "P01": ("model_checking", MACHINE), "P02": ("model_checking", MACHINE),
 "P03": ("exploration", INV + " (leaves of the tree against the text)"),
 "P04": ("model_checking", MACHINE),
 "P05": ("exploration", INV + " (coordinates recomputed from text and position)"),
 "P06": ("model_checking", MACHINE), "P07": ("model_checking", MACHINE), "P08": ("model_checking", MACHINE), "P09": ("model_checking", MACHINE),
 "P10": ("model_checking", "all histories of operations up to a depth run on the real code, every result compared with the one of the operation alone in its own process"),
 "P11": ("model_checking", "all histories of new/add/merge up to a depth run on the real code, every state compared with a map"),
 "P12": ("exploration", INV + " (every call returns: panics, crashes and hangs are watched)"),
 "P13": ("model_checking", READER), "P14": ("model_checking", READER), "P15": ("model_checking", READER), "P16": ("model_checking", "exhaustive bounded exploration of the layouts of grammars on the real code, compared with the plain layout"),
 "P17": ("exploration", "exhaustive bounded exploration of texts on the compiled output of the generator, on its regeneration, on the rules loaded at run time, on rules_from_peg, and on a build of the library with them in the place of its own: acceptance, trees, errors and rules built"),
 "P18": ("exploration", "exhaustive bounded exploration of rule sets: code generated, compiled, evaluated and compared"),
 "P19": ("exploration", "exhaustive exploration of all trees up to a size against the definition of the operation"),
 "P20": ("exploration", "exhaustive exploration of all trees up to a size and lists of names against the definition of the operation"),
 "P21": ("exploration", "exhaustive exploration of all trees up to a size and lists of names against the definition of the operation"),
 "P22": ("exploration", "exhaustive exploration of all trees up to a size: definition of the flat list, and rebuilding the tree"),
 "P23": ("model_checking", "all lists of nodes up to a length, all helper calls on all reachable rests, compared with a cursor model"),
 "P24": ("exploration", "enumeration of all Unicode scalar values, and all triples of colliding chars, against the definitions"),
 "P26": ("model_checking", "stateless exploration of the real code under a controlled scheduler: all schedules with one or two preemptions at allocator operations, and one at any machine instruction, of all pairs of calls; every result compared with the one of the call alone"),
 "P27": ("exploration", INV + " (memory in use after dropping the results, metered at the allocator), histories of calls included"),
 "P28": ("model_checking", "exhaustive bounded exploration of (rule set, text) pairs, peg texts and trees on the real code; the work metered at the allocator (operations, bytes) and, on very long texts, the processor time, are bounded by the steps of the explicit-state PEG machine (by chars, nodes)"),
 "P29": ("exploration", INV + " (what errors say, against what the reference PEG machine expected there; chains of errors against lists)"),
 "P25": ("exploration", "exhaustive bounded exploration of rule sets: written with the macros, compiled, evaluated and compared"),
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    level, tech = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick bash check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "model checking: " + tech,
        "level": level,
        "level_note": "Complete within the bounds written in the evidence (coverage.families), nothing beyond them; the reference (mc/src) is trusted: it is written from the properties and the documentation, independently of the code.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is reached through the public API. known_findings.txt lists the defects found (all repaired)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
