"""merge_evidence.py EVIDENCE KEY FILE...: adds what other builds of a check observed."""
import json, sys

target, key, files = sys.argv[1], sys.argv[2], sys.argv[3:]
e = json.load(open(target))
sum_eval, observed = 0, {}
for f in files:
    c = json.load(open(f))["coverage"]
    sum_eval += c["evaluations"]
    for k, v in c["observed"].items():
        observed[k] = observed.get(k, 0) + v
e["coverage"][key] = {"runs": len(files), "evaluations": sum_eval, "observed": observed}
json.dump(e, open(target, "w"), indent=1)
