#!/bin/bash
# tools/fams.sh ID limit fam...   one line per family, then a summary of what fails
id=$1; lim=$2; shift 2
find /verif/replay -name "$id-*.txt" -delete
mkdir -p /tmp/vr; 
for f in "$@"; do
  printf '%-28s ' "$f"
  MC_LIMIT=$lim MC_MAXVIOL=${MAXV:-400} MC_FAMILY="$f" timeout 900 python3 check.py $id 2>&1 | grep -aE "^$id: |error:|rror" | tail -3
  echo
  python3 tools/viol.py $id ${N:-4} 
  find /verif/replay -name "$id-*.txt" -delete
done
