#!/bin/bash
# tools/seed.sh ID     check a planted bug of seeded/ID in scratch copies: demo on clean and patched code, stable tests
#                      CHECKS="C01 C02" runs these checks against it, too;  NOTEST=1 skips the tests
ID=$1; S=/verif/seeded/$ID
D=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; mkdir $D/demo; cp $S/* $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
cd $D/repo; export PYTHONPATH=$D/repo/src PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH
timeout 300 bash $D/demo/demo.sh > $D/clean.out 2>&1; c=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
timeout 300 bash $D/demo/demo.sh > $D/bug.out 2>&1; b=$?
echo "$ID: demo clean=$c patched=$b  $(tail -1 $D/bug.out)"
[ $c = 0 ] || cat $D/clean.out
if [ -z "$NOTEST" ]; then
  PYTHONHASHSEED=0 timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --hypothesis-seed=0 2>&1 | tail -3
fi
for k in $CHECKS; do
  (cd /verif && unset PYTHONPATH && VP_REPO=$D/repo VP_EVIDENCE=$D/ev /opt/venv/bin/python -B -m vp.run $k) 2>&1 | tail -2
done
