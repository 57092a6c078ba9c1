"""Writes MANIFEST.json from the list of properties."""
import json, os, subprocess, sys
from . import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    done = props.PROPS
    allp = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in allp:
        i = p["id"]
        if i not in done:
            na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "not yet covered")))
            continue
        checks.append(dict(
            property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC; scenarios generated from it run against the real code, recorded traces validated against it with TLC",
            level="model_checking", level_note=done[i].get("note", props.NOTE)))
    m = dict(version=1, setup_cmd="./check --setup",
             hooks=dict(guard="cfg tchannel_verif", enable="RUSTFLAGS='--cfg tchannel_verif' cargo build (done by the checks themselves)",
                        source_commits=["04ceec0"]),
             checks=checks, not_applicable=na,
             notes="Checks print tool notes to stdout; exit 2 means that the machinery itself failed. 'check --replay FILE' runs a reported scenario again.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
