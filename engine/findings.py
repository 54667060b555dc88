"""Known findings: defects of the tree recorded instead of repaired."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")


def load():
    if not os.path.exists(PATH):
        return []
    with open(PATH) as f:
        return json.load(f)["known"]


def split(prop, viol):
    """(texts of known findings met, violations that are not known)."""
    ks = load()
    texts, new = [], []
    for r in viol:
        v = r["violation"]
        for k in ks:
            if k["property"] == prop and v["op"] in k["ops"] and v["why"].startswith(k.get("why", "")):
                texts.append("%s: %s" % (r["key"], k["what"]))
                break
        else:
            new.append(r)
    return texts, new
