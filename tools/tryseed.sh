# tryseed.sh SEEDID [PROP...]: quick checks against a planted bug, no tests
s=$1; shift; P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
for p in $P; do VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py $p > /tmp/try.$s.$p; rc=$?; echo "$s $p rc=$rc $(grep -m1 -e '^---' /tmp/try.$s.$p | cut -c1-200)"; done
git -C /repo checkout -- .
