"""The verdict for each property."""
import sys
import time

import compare
import findings
import grammar
import owners
import tables
import generic
from findings import Finding

IDS = ["C%02d" % i for i in range(1, 34)]
ASSUME = ["rustc's MIR of the crate is what runs", "the models of nom and of the standard library (lib/models.py) "
          "say what those functions do", "spec/sparql.spec says what the rules have to do"]


class Verdict:
    def __init__(self):
        self.findings = []
        self.undecided = []
        self.coverage = {}
        self.assumptions = list(ASSUME)
        self.level = "other"
        self.summary = ""


class Analysis:
    def __init__(self, dump, tier):
        self.dump = dump
        self.tier = tier
        self.g = grammar.Grammar(dump)
        self.g.run()
        self.c = compare.Compare(self.g)
        self.results = self.c.run()
        self.rf, self.ru = findings.rule_findings(self.g, self.c)


def decide(dump, ids, tier):
    a = Analysis(dump, tier)
    out = {}
    for pid in ids:
        v = Verdict()
        rule_part(a, pid, v)
        for mod in (generic, tables):
            f = getattr(mod, pid, None)
            if f is not None:
                f(a, v)
        v.coverage["explanation"] = v.summary
        v.coverage["undecided"] = sorted(set(v.undecided))
        out[pid] = v
    return out


def rule_part(a, pid, v):
    v.findings += a.rf.get(pid, [])
    v.undecided += a.ru.get(pid, [])
    own = [r for r in owners.OWN.get(pid, []) if r in a.results]
    missing = [r for r in owners.OWN.get(pid, []) if r not in a.results]
    if own:
        import engine
        how = {}
        nodes = 0
        for r in own:
            how[r] = a.results[r].how or ("differs" if a.results[r].equal is False else "not decided")
            nodes += size(a.g.I.trees.get(r))
        v.coverage["rules_compared"] = len(own)
        v.coverage["decision_tree_nodes"] = nodes
        v.coverage["agreement"] = how
        v.coverage["reference_rules_used_in_place"] = missing
        v.summary = ("%d of %d rules of /repo have the decision tree of the reference grammar (%d tree nodes compared)"
                     % (sum(1 for r in own if a.results[r].equal), len(own), nodes))
    elif pid in ("C04", "C05", "C15", "C16"):
        v.summary = "%d rules compared with the reference grammar" % len(a.results)


def size(t):
    import aspects
    return sum(1 for _ in aspects.nodes(t)) if t is not None else 0
