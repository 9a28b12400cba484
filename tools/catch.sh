#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against a scratch copy of /repo with the bug
for id in "$@"; do
	w=/tmp/catch.$id.$$
	git clone -q /repo "$w" && git -C "$w" apply /verif/seeded/$id/patch.diff || { rm -rf "$w"; echo "$id: does not apply"; continue; }
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	t0=$(date +%s)
	out=$(cd /verif && VF_REPO=$w VF_EVIDENCE=/tmp/catch.ev python3-vt check.py --property $p 2>&1); rc=$?
	echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
	[ $rc = 1 ] || echo "$out" | tail -5
	rm -rf "$w"
done
