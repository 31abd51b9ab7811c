#!/bin/sh
# all mutants, in N shards, from a copy of the committed/working machinery: tools/mutall.sh OUT [N]
O=${1:-/tmp/mutall}; N=${2:-3}
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$O"
for i in $(seq 0 $((N-1))); do
  rsync -a --delete --exclude .git --exclude seeded "$V"/ "$O/v$i"/ 2>/dev/null || { mkdir -p "$O/v$i"; cp -a "$V"/. "$O/v$i"/; }
  MUTDIR=$O/m$i nohup python3 "$O/v$i/tools/mut.py" -s $i/$N $MUTARGS > "$O/log$i" 2>&1 &
done
wait
cat "$O"/log*
