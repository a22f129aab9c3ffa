#!/bin/bash
# every seed must give the same execution in fresh processes: compares execution hashes of N seeds per profile
N=${1:-300}; cd "$(dirname "$0")/.."; X=$(python3 build.py) || exit 2; bad=0
for p in $($X profiles); do
  a=$($X hashes --profile $p --from 7000000 --count $N | md5sum); b=$(FOO=$RANDOM $X hashes --profile $p --from 7000000 --count $N | md5sum)
  # and in another order: the second half first
  c=$( { $X hashes --profile $p --from $((7000000+N/2)) --count $((N-N/2)); $X hashes --profile $p --from 7000000 --count $((N/2)); } | sort -k2n | md5sum)
  [ "$a" = "$b" ] && [ "$a" = "$c" ] && echo "ok   $p" || { echo "DIFF $p"; bad=1; }
done
exit $bad
