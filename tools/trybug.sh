#!/bin/bash
# trybug.sh BUG [PROPERTY...]: run checks on a copy of /repo with the planted bug
bug=$1; shift
dir=/verif/seeded/$bug
props=${*:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
t=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -r "$t"' EXIT
cp -a /repo "$t/repo"; git -C "$t/repo" apply "$dir/patch.diff" || exit 2
for p in $props; do
  s=$(date +%s)
  REPO=$t/repo EVIDENCE_DIR=$t /verif/govc.sh check -prop $p > $t/out 2>&1; rc=$?
  echo "$bug $p rc=$rc $(( $(date +%s)-s ))s: $(grep -m2 -E 'VIOLATION|KNOWN' $t/out | tr '\n' ' ')"
done
