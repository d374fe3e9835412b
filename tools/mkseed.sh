# mkseed.sh ID PROPERTY "needs" "breaks"  — takes the current uncommitted /repo diff as the patch, and demo files from /tmp/demo/, undoes the diff
set -e
d=/verif/seeded/$1; mkdir -p $d; git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ]; git -C /repo checkout -- .
cp /tmp/demo/* $d/; rm -f /tmp/demo/*
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys; json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
