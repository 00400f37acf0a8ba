#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties and the reasons for the others.
import json, sys
CLAIMED = {
 # id: (functions and what is proved, what is assumed)
}
NA = {}
exec(open('/verif/tools/claims.py').read())
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="contract-based deductive verification: contracts on the Go functions, verification conditions from their SSA form, discharged by z3 and cvc5",
            level="proof", level_note=CLAIMED[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet under contract")))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
  hooks=dict(guard="none", enable="no hooks: contracts live in /verif/contracts and are checked against the unmodified source of /repo; replay drivers enter through go test -overlay", source_commits=[]),
  notes="Replay drivers run the real code on a bounded set of inputs to exhibit failing inputs; they are labelled bounded and never counted as proved."),
  open('/verif/MANIFEST.json','w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
