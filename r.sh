#!/bin/bash
# dev helper: run checks, short output
for c in "$@"; do
  s=$(date +%s.%N); ./run.sh $c ${TIER:-quick} >/tmp/r.out 2>&1; rc=$?
  echo "$c rc=$rc $(echo "$(date +%s.%N)-$s" | bc | cut -c1-5)s"; grep -v "warning\|^ *|\|^ *-->\|^[0-9 ]*|" /tmp/r.out | cut -c1-${W:-600} | tail -${N:-6}
done
