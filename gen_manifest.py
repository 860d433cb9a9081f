#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the comments at the head of mc/props/*.cpp."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
FAULT = {"C14", "C15", "C16", "C29"}
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    head = open(os.path.join(H, "mc", "props", i.lower() + ".cpp")).read()
    rule = re.search(r"^// rule: (.+)$", head, re.M).group(1)
    m = re.search(r"^// assume: (.+)$", head, re.M)
    tech = "explicit-state model checking of the real container: exhaustive breadth-first enumeration of reachable trees, " + \
        ("every fault point of every operation enumerated in each" if i in FAULT else "every operation of the alphabet judged in each against an ideal sequence or invariant")
    if i == "C30":
        tech = "stateless model checking of the real helpers: every outcome of the random engine enumerated, every workload of bounded length"
    if i == "C31":
        tech += "; the same exploration repeated in twenty builds, three of them under sanitizers that judge every operation, and compared between builds"
    note = "Exhaustive within stated bounds (sizes, node capacities and alphabets per configuration, listed with counts in the evidence): " + rule + "."
    if m:
        note += " Assumes: " + m.group(1) + "."
    note += " Trusted: gcc" + (", clang, the sanitizers" if i == "C31" else "") + ", the harness in mc/."
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "BOOST_SEGMENTED_TREE_VERIFY", "enable": "the checks compile with -DBOOST_SEGMENTED_TREE_VERIFY (seq::verify_shape reports the shape of the tree, used to recognise states already explored); without it they fall back to block lengths and height from the public interface and node addresses found in memory", "source_commits": ["05e369d"]},
           "checks": checks, "not_applicable": [],
           "notes": "Every check compiles mc/props/<id>.cpp against /repo's working tree and explores the real code; see DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
