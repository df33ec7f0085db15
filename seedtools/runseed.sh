#!/bin/bash
# runseed.sh id...: run each planted bug's property check against a patched copy of /repo,
# mounted over /repo in a private namespace (four at a time).  PROPS="C01 C02" overrides the checks run.
one() {
  id=$1
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  wt=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo $wt/repo; cp -a /verif $wt/verif
  git -C $wt/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; python3 -c "import shutil;shutil.rmtree('$wt')"; return; }
  for q in $p; do
    s=$(date +%s)
    out=$(unshare -Urm bash -c "mount --bind $wt/repo /repo && mount --bind $wt/verif /verif && cd /verif && timeout 900 ./check $q $EXTRA" 2>&1); rc=$?
    echo "$id $q rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION property='$q) | $(echo "$out" | grep -v KNOWN | head -1 | cut -c1-150)"
  done
  python3 -c "import shutil;shutil.rmtree('$wt')"
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
