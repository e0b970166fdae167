#!/bin/bash
# Tries planted bugs in a private copy bound over /repo:  tools/trybug.sh [-t] [-d] ID...
#   -d only the demonstration (before/after) and the stable tests, -t only the check; env VERIF_* is passed on; CHECK=Cxx other checks.
do_t=1; do_d=1
while [[ "$1" == -* ]]; do [ "$1" = -t ] && do_d=0; [ "$1" = -d ] && do_t=0; shift; done
for id in "$@"; do
  s=/tmp/trybug.$$.$id
  mkdir -p $s; cp -a /repo $s/repo; cp -a /verif/seeded/$id $s/demo; rm -f $s/demo/meta.json $s/demo/patch.diff
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  export s id prop do_t do_d CHECK
  unshare -Urm bash -c '
    mount --bind $s/repo /repo || exit 9
    cd /repo
    say() { echo "$id [$prop]: $*"; }
    if [ $do_d = 1 ]; then
      bash /opt/vp/build.sh >$s/build.log 2>&1 || { say BUILD-BASE FAILED; exit; }
      bash $s/demo/demo.sh >$s/demo0.log 2>&1 && say "demo ok on unchanged" || { say "DEMO FAILS ON UNCHANGED"; tail -5 $s/demo0.log; }
    fi
    git apply /verif/seeded/$id/patch.diff || { say APPLY FAILED; exit; }
    if [ $do_d = 1 ]; then
      bash /opt/vp/build.sh >$s/build.log 2>&1 || { say BUILD FAILED; tail -5 $s/build.log; exit; }
      grep -n "warning" $s/build.log | head -3
      bash /opt/vp/test.sh $s/out.json 2>&1 | tail -1
      if bash $s/demo/demo.sh >$s/demo1.log 2>&1; then say "DEMO PASSES WITH BUG"; else say "demo fails with bug ($?): $(tail -1 $s/demo1.log)"; fi
    fi
    if [ $do_t = 1 ]; then
      for c in ${CHECK:-$prop}; do
        t0=$(date +%s); (cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check $c >$s/check.log 2>&1); rc=$?
        say "check $c rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION $s/check.log) | $(grep -v VIOLATION $s/check.log | tail -1 | cut -c1-220)"
      done
    fi'
  rm -rf "/tmp/trybug.$$.$id"
done
