#!/bin/bash
# trybug.sh ID [PROP...]: run checks against a planted bug (in a scratch copy)
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
prop=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
T=$(mktemp -d /tmp/fgv-bug.XXXXXX)
chmod 755 "$T"; cp -a /repo "$T/repo"
git -C "$T/repo" apply "$V/seeded/$id/patch.diff" || exit 9
for p in $prop; do
  mkdir -p "$T/b"; FGV_REPO=$T/repo VERIF_SEED=${VERIF_SEED:-1} FGV_BUILD_CACHE="$T/b" FGV_EVID="$T" python3 "$V/run.py" $p > "$T/o" 2>&1
  echo "$id $p rc=$?"; grep -m2 -A2 '^VIOLATION' "$T/o" | cut -c1-300; tail -1 "$T/o"
done
rm -rf "$T"
