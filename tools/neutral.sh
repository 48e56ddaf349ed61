#!/bin/bash
# neutral.sh NAME..: the checks against behaviour-preserving changes, on copies of /repo and
# /verif mounted over them in a namespace of this command's own (needs the privilege to mount).
set -e
tmp=$(mktemp -d /tmp/neutral.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"
mkdir "$tmp/verif"
cd /verif
cp -a sim check.sh known_findings.txt tools properties.jsonl MANIFEST.json neutral "$tmp/verif/"
[ -d target ] && cp -a target "$tmp/verif/"
[ $# = 0 ] && set -- $(ls neutral | sed -n 's/\.diff$//p')
unshare -m bash -c '
mount --make-rprivate /; mount --bind "$1/repo" /repo; mount --bind "$1/verif" /verif; shift
cd /verif; bad=0
for id in "$@"; do
    git -C /repo checkout -q -- .
    git -C /repo apply /verif/neutral/$id.diff || { echo "$id does not apply"; bad=1; continue; }
    for p in $(cat neutral/$id.props); do
        HOPSIM_SECS=${HOPSIM_SECS:-10} ./check.sh $p quick >out 2>&1 && echo "$id $p quiet" || { bad=1; echo "$id $p NOT QUIET"; tail -5 out | cut -c1-300; }
    done
done
exit $bad' x "$tmp" "$@"
