#!/bin/bash
# demos.sh [ids]: every planted bug applies, its demo passes on the unchanged tree and fails with the patch.
one() {
  id=$1; d=/verif/seeded/$id; wt=$(mktemp -d /tmp/dm.XXXXXX)
  cp -a /repo $wt/repo
  (cd /repo && bash $d/demo.sh >/dev/null 2>&1); a=$?
  git -C $wt/repo apply $d/patch.diff 2>/dev/null || echo "$id does not apply"
  (cd $wt/repo && bash $d/demo.sh >/dev/null 2>&1); b=$?
  [ $a = 0 ] && [ $b != 0 ] || echo "$id BAD clean=$a patched=$b"
  python3 -c "import shutil;shutil.rmtree('$wt');shutil.rmtree('$d/env/__pycache__', ignore_errors=True)"
}
export -f one
ids="$*"; [ -n "$ids" ] || ids=$(ls /verif/seeded)
printf '%s\n' $ids | xargs -P ${J:-6} -I{} bash -c 'one {}'
