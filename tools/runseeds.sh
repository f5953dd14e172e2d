#!/bin/bash
# run the check of its property against each planted bug, in scratch copies of /repo.  usage: runseeds.sh [id ...]
cd "$(dirname "$0")/.."
one() { d=$1; t=$(mktemp -d /tmp/rs.XXXXXX); mkdir "$t/repo"; git -C /repo archive HEAD | tar -x -C "$t/repo"
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  if (cd "$t/repo" && git apply --unsafe-paths "$OLDPWD/seeded/$d/patch.diff"); then o=$(VERIF_REPO="$t/repo" VERIF_EVIDENCE="$t/evidence" VERIF_OUT="$t/out" ./check $p 2>&1); r=$?
  echo "$d $p exit=$r $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep -m1 -E '^  [a-z]|^ERROR' | cut -c1-150)"; else echo "$d: does not apply"; fi
  rm -rf "$t"; }
export -f one
printf '%s\n' ${@:-$(ls seeded)} | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
