#!/usr/bin/env python3
"""Write MANIFEST.json (from the list of properties below) - run after a change of what is claimed."""
import json
import os

BASE = ("abstract interpretation of the compiler's MIR of every rule into a decision tree over the unread text, ")
CMP = BASE + "decided equal to the decision tree of the reference grammar"
TECH = {
    "C01": BASE + "reachability of panic, assertion and unreachable constructs; result completeness",
    "C02": BASE + "nullability of repetition bodies and left recursion over the call graph",
    "C03": BASE + "no path at the end of the text answers 'incomplete'",
    "C04": BASE + "provenance analysis of remainders and stored slices",
    "C05": BASE + "reachability of unrecoverable failures from rules other than the documented one",
    "C06": BASE + "overlap of alternatives that are tried at one position, against the reference grammar",
    "C07": "effect and purity analysis over the MIR of all reachable bodies, all types and statics",
    "C08": "analysis of the PartialEq/Clone impls and field types of all result types",
    "C09": BASE + "reachability of alternatives and of variants of result types",
    "C28": CMP + "; decision table of is_distinct",
    "C32": CMP + "; decision table of compatible_arg",
    "C33": CMP + "; decision tables of the conversions",
}
NOTE = ("Static: decides for all inputs on the tree rustc type-checks, by comparing code with a reference grammar written "
        "for this repository; trusts rustc's MIR, the models of the nom/std functions used (lib/models.py) and the "
        "reference grammar (spec/). Code outside the analysable fragment is reported as UNDECIDED, never as held: it "
        "does not fail the check.")
NOTES = {
    "C01": "Static: every panicking construct, assertion and unwrap reachable from any rule is shown unreachable, for all "
           "inputs, up to stack exhaustion (C34) and allocation failure; trusts rustc's MIR and the models of nom/std functions.",
    "C02": "Static: every repetition takes input on each round and no rule calls itself without taking input; running time "
           "beyond termination is C06.",
    "C06": "Static: no construct is parsed twice at one position by two alternatives unless the reference grammar does so too; "
           "this bounds re-parsing of nested constructs, it does not measure time.",
    "C07": "Static: conservative effect analysis; functions of other crates are judged by a list of pure paths.",
    "C08": "Static: derived impls are trusted to be the field-wise ones; float fields are shown to hold parsed decimals only.",
}
NA = [
    {"property": "C34", "reason": "the bound is a runtime quantity (stack size against nesting depth): the parser is recursive "
     "descent without a depth counter, so the property does not hold by construction and no static argument bounds stack use per platform"},
    {"property": "C35", "reason": "language equality of the whole parser with the SPARQL 1.1 EBNF is undecidable in general and does "
     "not hold here by design (the crate is work in progress); the part that is decided rule by rule is under C10-C31"},
]

checks = []
for i in range(1, 34):
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": TECH.get(p, CMP), "level": "other", "level_note": NOTES.get(p, NOTE)})
m = {"version": 1, "setup_cmd": "python3-vt lib/dump.py", "checks": checks, "not_applicable": NA,
     "notes": "Static analysis only. No hooks in /repo. known_findings.json lists what is known and what was repaired."}
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
