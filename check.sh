#!/bin/bash
# bash /verif/check.sh <property> [thorough]: decides one property for /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
bash "$here/setup.sh" >/dev/null 2>/tmp/verif-setup.$$
if [ ! -x "$here/bin/analyzer" ]; then
	cat /tmp/verif-setup.$$ >&2
	rm -f /tmp/verif-setup.$$
	mkdir -p "$here/evidence"
	echo "the analyzer could not be built" >"$here/evidence/replay-$prop.json"
	echo "VIOLATION property=$prop replay=$here/evidence/replay-$prop.json"
	exit 1
fi
rm -f /tmp/verif-setup.$$
"$here/bin/analyzer" -repo "${VERIF_REPO:-/repo}" -spec "$here/spec" -out "$here/evidence" -known "$here/known_findings.txt" \
	-guards "$here/analyzer/guards.json" -tier "$tier" -seed "${VERIF_SEED:-1}" check "$prop"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the analyzer itself was ended: the property is not established
	echo "the analyzer ended with status $rc" >"$here/evidence/replay-$prop.json"
	echo "VIOLATION property=$prop replay=$here/evidence/replay-$prop.json"
	rc=1
fi
exit $rc
