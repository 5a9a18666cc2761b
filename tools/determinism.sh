#!/bin/bash
# determinism.sh [SEEDS]: every check twice, with other worker counts and other
# hash seeds of the driving interpreter; the digests of all runs must agree.
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-40}; t=$(mktemp -d); rc=0
for c in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13}; do
  "$here/bin/check" $c --no-evidence --seeds $n --workers 8 --logs $t/a >/dev/null 2>&1
  HAMSIM_HASHSEED=977 "$here/bin/check" $c --no-evidence --seeds $n --workers 3 --logs $t/b >/dev/null 2>&1
  sort $t/a > $t/a.s; sort $t/b > $t/b.s
  if cmp -s $t/a.s $t/b.s && [ -s $t/a.s ]; then echo "$c: $(wc -l < $t/a.s) runs, identical"
  else echo "$c: DIFFER ($(diff $t/a.s $t/b.s | grep -c '^<') of $(wc -l < $t/a.s))"; rc=1; fi
done
rm -rf "$t"; exit $rc
