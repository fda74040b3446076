#!/bin/bash
# development aid: demo of each planted bug given, without and with the patch, and what the check says
for i in "$@"; do
  d=/verif/seeded/$i; w=$(mktemp -d); rm -rf /tmp/mutrepo; mkdir /tmp/mutrepo; ln -s /tmp/mutrepo $w/r; cp -r /repo/. /tmp/mutrepo
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir $w/demo; cp -r $d/. $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  (cd $w/r && bash $w/demo/demo.sh >$w/o1 2>&1); a=$?
  (cd $w/r && git apply $d/patch.diff && bash $w/demo/demo.sh >$w/o2 2>&1); b=$?
  c=-
  if [ -z "$NOCHECK" ]; then (cd /verif && SA_REPO=/tmp/mutrepo SA_CACHE=/tmp/mutcache SA_EVIDENCE=$w/ev timeout 900 python3 -m sa.check $p >$w/o3 2>&1); c=$?; fi
  echo "$i $p demo unchanged=$a patched=$b check=$c"
  [ $a = 0 ] || tail -5 $w/o1; [ $b != 0 ] || tail -5 $w/o2
  [ "$c" = 1 ] && grep -m2 "VIOLATION\|^  src\|^  incl" $w/o3 | cut -c1-160
  if [ "$c" = 0 ]; then python3 - $w/ev/$p.json <<'P'
import json,sys
for n in json.dumps(json.load(open(sys.argv[1]))).split('"'):
    if "not decided" in n: print("   note",n[:160])
P
  fi
  rm -rf $w /tmp/mutrepo
done
