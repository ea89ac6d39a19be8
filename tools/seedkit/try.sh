#!/bin/bash
# try.sh ID...: confirms a planted bug in a scratch copy of /repo.
K=/verif/tools/seedkit; R=/tmp/seedrepo
[ -d $R ] || cp -a /repo $R
for i in "$@"; do
  D=/verif/seeded/$i; cp $K/kit.rs $D/; [ -f $D/demo.sh ] || cp $K/demo.sh $D/
  O=/tmp/seed.$i; mkdir -p $O
  git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD && git -C $R clean -fdq sorock tests tools
  if [ -z "$SKIPBASE" ]; then (cd $R && bash $D/demo.sh > $O/base 2>&1); echo "$i base rc=$?"; fi
  git -C $R apply $D/patch.diff || { echo "$i NOAPPLY"; continue; }
  (cd $R && bash $D/demo.sh > $O/bug 2>&1); echo "$i bug rc=$?"
  if [ -n "$TESTS" ]; then
    sed 's#/repo#'$R'#g' /opt/vp/env.sh > /tmp/env.seed
    (. /tmp/env.seed; cd $R; cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp > $O/tests 2>&1); grep -a "FAIL\|Summary" $O/tests | sort -u
  fi
  git -C $R checkout -qf . 
done
