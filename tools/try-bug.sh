#!/bin/bash
# try-bug.sh SLOT ID...: takes planted changes (seeded/ID) through build, stable tests, demonstration and check, in a
# private mount namespace where scratch copies stand in for /repo and /verif. Prints one line per change.
#   SLOT  number of the scratch copies to use (/tmp/slot$SLOT); made when missing
# environment: CHECKS="C01 C02" runs those instead of the change's own property; SKIPTESTS=1; SEED
slot=/tmp/slot$1; shift
if [ ! -d "$slot" ]; then mkdir -p "$slot"; cp -a /repo "$slot/repo"; cp -a /verif "$slot/verif"; fi
for d in sim tools stub; do :; done
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude seeded --exclude seeded-uncounted /verif/ "$slot/verif/" 2>/dev/null || { cp -au /verif/sim /verif/*.sh /verif/*.txt "$slot/verif/"; }
for id in "$@"; do
  rm -rf "$slot/bug"; for s in seeded seeded-uncounted; do [ -d /verif/$s/$id ] && cp -a /verif/$s/$id "$slot/bug"; done
  prop=$(python3 -c "import json,sys;print(json.load(open('$slot/bug/meta.json'))['property'])")
  checks=${CHECKS:-$prop}
  mkdir -p "$slot/log"
  unshare -Urm bash -c '
    slot=$1; id=$2; checks=$3
    mount --bind $slot/repo /repo; mount --bind $slot/verif /verif
    cd /repo; git checkout -q -- . ; out="$id:"
    L=$slot/log/$id; : > $L
    cp -a $slot/bug $slot/laid; rm -f $slot/laid/*.diff $slot/laid/meta.json
    bash /opt/vp/build.sh >>$L 2>&1 || out="$out BASEBUILD-FAILS"
    if [ -z "$SKIPTESTS" ]; then timeout 300 bash $slot/laid/demo.sh >>$L 2>&1 && out="$out demo0-ok" || out="$out DEMO-FAILS-UNCHANGED"; fi
    git apply $slot/bug/patch.diff || out="$out NOAPPLY"
    bash /opt/vp/build.sh >>$L 2>&1 || out="$out BUILD-FAILS"
    if [ -z "$SKIPTESTS" ]; then
      bash /opt/vp/test.sh $slot/out.json >>$L 2>&1
      python3 - $slot/out.json >$slot/tst <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ("passed","stable","pass","tests"):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print("tests-ok" if not m else "TESTS-FAIL(%s)"%",".join(sorted(m)))
P
      out="$out $(cat $slot/tst)"
      timeout 300 bash $slot/laid/demo.sh >>$L 2>&1; r=$?
      [ $r -eq 0 ] && out="$out DEMO-PASSES-PATCHED" || out="$out demo1-ok($r)"
    fi
    cd /verif
    for c in $checks; do
      s=$(date +%s)
      VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh $c quick >$slot/chk 2>&1; r=$?
      cat $slot/chk >>$L
      v=$(grep -c "^VIOLATION property=$c " $slot/chk)
      if [ $r -eq 1 ] && [ $v -gt 0 ]; then out="$out $c:CAUGHT($(( $(date +%s)-s ))s)"; else out="$out $c:missed(rc=$r,v=$v,$(( $(date +%s)-s ))s)"; fi
    done
    cd /repo; git checkout -q -- .
    rm -rf $slot/laid
    echo "$out"
  ' _ "$slot" "$id" "$checks"
done
