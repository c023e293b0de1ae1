#!/bin/bash
# seedtest.sh ID [nocheck] : confirms a planted bug in a scratch copy of /repo that is bind mounted over /repo in a private namespace:
# patch applies, builds, stable tests pass, demo fails (and passes without), then runs the property's quick check against it.
ID=$1; D=/verif/seeded/$ID; S=/tmp/seedrepo
[ -d $S ] || cp -a /repo $S
git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD && git -C $S clean -fdq
cp -a $D /tmp/seeddemo.$$
cat > /tmp/seedrun.$$ <<R
mount --bind $S /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash /tmp/seeddemo.$$/demo.sh >/tmp/seedout.$$ 2>&1 && echo "$ID demo clean OK" || { echo "$ID DEMO FAILS ON CLEAN"; tail -5 /tmp/seedout.$$; }
git apply $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >/tmp/seedout.$$ 2>&1 || { echo "$ID BUILD FAILS"; grep -m5 error /tmp/seedout.$$; exit 1; }
timeout 300 bash /tmp/seeddemo.$$/demo.sh >/tmp/seedout.$$ 2>&1 && echo "$ID DEMO PASSES WITH BUG" || { echo "$ID demo patched fails OK"; tail -2 /tmp/seedout.$$; }
bash /opt/vp/test.sh /tmp/seedjson.$$ 2>&1 | tail -1
R
unshare -Urm bash /tmp/seedrun.$$
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); git -C $S checkout -q -- . ; git -C $S apply $D/patch.diff
  (cd /verif; BSYM_REPO=$S python3 vf.py check $P quick > /tmp/seedout.$$ 2>&1; echo "$ID check rc=$?"; grep -v INCOMPLETE /tmp/seedout.$$ | cut -c1-200 | tail -4)
fi
git -C $S checkout -q -- . ; rm -rf /tmp/seeddemo.$$ /tmp/seedrun.$$ /tmp/seedout.$$ /tmp/seedjson.$$
