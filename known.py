"""Known findings: genuine defects recorded instead of repaired (known_findings.jsonl)."""
import json, os, re
PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.jsonl")


def load(prop):
    out = []
    if os.path.exists(PATH):
        for l in open(PATH):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    return out


def match(kset, contract, failures):
    """a finding names the contract (one history/input class) and what fails in it; it covers
    a failed contract only when every failed obligation is the one listed"""
    for k in kset:
        if k["contract"] == contract and failures and all(re.search(k["failure"], f) for f in failures):
            return k
    return None
