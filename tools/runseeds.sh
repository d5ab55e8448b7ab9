#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif/seeded
for id in ${@:-*}; do
	p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
	out=$(cd /verif && timeout 900 ./check.sh $p 2>&1); rc=$?
	git -C /repo checkout -q -- .
	if [ -n "$KEEP" ]; then echo "$out" > $KEEP/$id.log; fi
	echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION) [$(echo "$out" | grep -c '^  refuted')/$(echo "$out" | grep -v '^  refuted' | grep -c '^  [a-z]*: ')] $(echo "$out" | grep 'obligations discharged' | sed 's/.*executions, //')"
done
