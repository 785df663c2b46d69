#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the definitions here."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
from props import PHASES
import core
PROPS = list(core.PROPS)
for m in ("exporters", "launcher"):
    if os.path.exists(os.path.join(here, m + ".py")):
        PROPS += __import__("meta_" + m if False else m).PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        p["anchors"]["files"] = list(dict.fromkeys(p["anchors"]["files"]))
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in PROPS]
assert set(ids) == set(PHASES), set(ids) ^ set(PHASES)


def technique(ph):
    t = "runtime monitoring of the real code under generated workloads with injected delays"
    if any(x.get("race") for x in ph):
        t += ", plus the race detector"
    return t


checks = [dict(property=i, quick_cmd="python3 run.py check %s quick" % i, thorough_cmd="python3 run.py check %s thorough" % i,
               technique=technique(PHASES[i]), level="exploration",
               level_note="Every execution explored is decided by an oracle independent of the code; executions not generated are not covered. "
                          "Trusts the Go toolchain and race detector, the reference model in harness/, and that delays at synchronization points reach the relevant interleavings.")
          for i in ids]
json.dump(dict(version=1, setup_cmd="python3 run.py setup",
               hooks=dict(guard="none: the checks instrument a copy of the sources through a build overlay", enable="go build -overlay (run.py); nothing in /repo is changed", source_commits=[]),
               checks=checks, not_applicable=[]), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties")
