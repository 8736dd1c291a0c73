#!/bin/bash
# seed.sh <id>...: confirms planted bugs in a scratch copy: applies, only original lines, builds, tests pass,
# demo is 0 on the clean tree and nonzero with the patch.
S=/tmp/sd
mkdir -p $S
for id in "$@"; do
  d=/verif/seeded/$id
  rsync -a --delete --exclude target /repo/ $S/repo/
  mkdir -p $S/demo && find $S/demo -type f -delete
  cp $d/* $S/demo/ && rm -f $S/demo/patch.diff $S/demo/meta.json
  cd $S/repo || exit 1
  cargo build --workspace --locked --offline >$S/build.log 2>&1
  bash $S/demo/demo.sh >$S/clean.log 2>&1; a=$?
  if ! git apply $d/patch.diff; then echo "$id: does not apply"; continue; fi
  # removed lines must be original ones
  orig=$(git diff -U0 | python3 -c "
import re,subprocess,sys
f=None;bad=[];n=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        s=int(m[1]);c=int(m[2]) if m[2] is not None else 1
        for i in range(s,s+c):
            n+=1
            o=subprocess.run(['git','blame','-l','HEAD','-L',f'{i},{i}','--',f],capture_output=True,text=True).stdout
            sha=o.split()[0].lstrip('^')
            if subprocess.run(['git','merge-base','--is-ancestor',sha,'09884f4']).returncode!=0: bad.append((f,i))
print(n,'removed; not original:',bad)
")
  cargo build --workspace --locked --offline >$S/build.log 2>&1; b=$?
  cargo test --workspace --no-fail-fast --locked --offline >$S/test.log 2>&1
  t=$(grep -E '^test .* ok$' $S/test.log | wc -l); tf=$(grep -E '^test .* FAILED$' $S/test.log | wc -l)
  bash $S/demo/demo.sh >$S/bad.log 2>&1; c=$?
  echo "$id: clean demo $a, build $b, tests ok $t failed $tf, demo with patch $c, $orig | $(tail -1 $S/bad.log | cut -c1-200)"
  [ $a != 0 ] && tail -5 $S/clean.log
done
