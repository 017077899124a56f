#!/bin/bash
# try_seed.sh <id> [check...]: run checks against /repo with the planted change applied, in a scratch copy of the sources
ID=$1; shift; D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedXXXX); cp -a /repo/src $W/src
( cd $W && patch -s -p1 < $D/patch.diff ) || { echo "no apply"; rm -rf $W; exit 1; }
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for c in $P; do PYVC_SRC=$W/src VERIF_SEED=1 python3 /verif/check.py $c quick > $W/o 2>&1; echo "$ID $c rc=$? $(grep -h VIOLATION $W/o | cut -c1-140)"; [ -n "$V" ] && cut -c1-500 $W/o; done
rm -rf $W
