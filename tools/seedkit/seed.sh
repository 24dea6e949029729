#!/bin/bash
# seed.sh ID PROPERTY "needs" "breaks"   (worktree /tmp/wt holds the change, /tmp/wt.main.rs the demo)
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty diff; exit 1; }
cp /verif/tools/seedkit/demo.sh /verif/tools/seedkit/jpg.rs $d/
[ -f /tmp/wt.main.rs ] && cp /tmp/wt.main.rs $d/main.rs
[ -f /tmp/wt.features ] && cp /tmp/wt.features $d/features
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
(cd /repo && bash $d/demo.sh >/tmp/seed.clean 2>&1); a=$?
(cd /tmp/wt && bash $d/demo.sh >/tmp/seed.bad 2>&1); b=$?
echo "$1 clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/seed.clean; [ $b = 0 ] && tail -5 /tmp/seed.bad
if [ $a = 0 ] && [ $b != 0 ]; then
 cd /tmp/wt; export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
 if [ -z "$NOTEST" ]; then
 for f in "" "--no-default-features" "--features platform_independent"; do
  cargo test --offline $f --no-fail-fast 2>&1 | grep -E '^(error|test .*FAILED)' ; done | sort | uniq -c | head
 fi
fi
git -C /tmp/wt checkout -q -- .
