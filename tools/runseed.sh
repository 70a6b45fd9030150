#!/bin/bash
# runseed.sh ID [PROP] [tier]: the check of PROP (default: the one in meta.json) against seeded/ID, in a scratch copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/rs.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || exit 9
mkdir "$w/verif"; cp -a "$here"/{check,build.sh,env.sh,engine,harness,bin,known_findings.jsonl,properties.jsonl,MANIFEST.json} "$w/verif/"; mkdir "$w/verif/evidence"
s=$(date +%s)
VERIF_REPO="$w/repo" "$w/verif/check" "$p" "${3:-quick}" > "$w/out" 2>&1; rc=$?
echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -E 'VIOLATION|note:' "$w/out" | cut -c1-150)"
[ -n "$V" ] && tail -${V} "$w/out"
exit 0
