#!/bin/bash
# try_seeds.sh [all] [ID...]: run the property's check (with "all": every check) against each planted change
all=; [ "$1" = all ] && { all=1; shift; }
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  l=$p; [ -n "$all" ] && l=$(/verif/.build/target/debug/faerie-verif list)
  r=
  for i in $l; do
    timeout 900 /verif/check.sh $i quick >/tmp/try.$i 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$i " /tmp/try.$i; then r="$r $i"; elif [ $rc != 0 ]; then r="$r $i(rc$rc)"; fi
  done
  git -C /repo checkout -q -- .
  case " $r " in *" $p "*) echo "$s $p caught:$r | $(grep -a '^failed' /tmp/try.$p | cut -c1-150)";; *) echo "$s $p MISSED:$r";; esac
done
