#!/bin/bash
# seedtest.sh ID [CHECK...]: validates a planted bug in a scratch copy (/tmp/sr) and runs the given checks (default: its property)
id=$1; shift
S=/verif/seeded/$id
R=/tmp/sr
if [ ! -d $R ]; then cp -a /repo $R; fi
git -C $R fetch -q /repo 2>/dev/null; git -C $R reset -q --hard $(git -C /repo rev-parse HEAD)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
D=$(mktemp -d); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
if [ -z "$SKIPDEMO" ]; then
cd $R && cargo build --lib --offline >/dev/null 2>&1
bash $D/demo.sh >$D/o 2>&1; a=$?
[ $a = 0 ] || { echo "$id: demo fails ($a) on the unchanged tree"; tail -5 $D/o; }
fi
git -C $R apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$D"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
cd $R; cargo build --lib --offline >$D/b 2>&1 || { echo "$id: build fails"; grep -A5 ^error $D/b | head -20; }
bash $D/demo.sh >$D/o2 2>&1; c=$?
cargo test --offline --lib --test nbayes >$D/t 2>&1; t=$?
echo "$id: demo clean=$a patched=$c test=$t  ($(tail -1 $D/o2 | cut -c1-150))"
fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unset RUSTUP_TOOLCHAIN
cd /verif; for k in ${@:-$p}; do VERIF_REPO=$R VERIF_WORK=/tmp/vw VERIF_EVIDENCE=/tmp/vw/ev python3 check.py $k > $D/c 2>&1; echo "$id: check $k -> $? $(grep -c UNDECIDED $D/c) undecided; $(grep -m1 ' at src' $D/c | cut -c1-140)"; [ -n "$V" ] && cut -c1-400 $D/c; done
git -C $R checkout -q -- .
rm -rf "$D"
