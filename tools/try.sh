#!/bin/bash
# try.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied (- for none, REV:<commit> to revert a commit)
set -e
mkdir -p /tmp/pvtry
rsync -a --delete --exclude=_build /repo/ /tmp/pvtry/repo/ 2>/dev/null || { rm -rf /tmp/pvtry/repo; git clone -q /repo /tmp/pvtry/repo; }
cd /tmp/pvtry/repo
case "$1" in
  -) ;;
  REV:*) git -c user.name=x -c user.email=x@x revert --no-commit "${1#REV:}" ;;
  *) git apply "$1" ;;
esac
shift
for c in "$@"; do
  PV_REPO=/tmp/pvtry/repo PV_BUILD=/tmp/pvtry/build PV_SHRINK=${PV_SHRINK:-10} PV_EVID=/tmp/pvtry python3-vt /verif/checks/$c || echo "exit $?"
done
