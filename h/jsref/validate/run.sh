#!/bin/sh
# development aid: compares the reference interpreter with node on the corpus
cd "$(dirname "$0")" && rm -rf /tmp/jsref-validate && mkdir -p /tmp/jsref-validate/c && node node.js corpus.txt > /tmp/jsref-validate/node.txt
python3 - <<'P'
s=open("corpus.txt").read().replace("\\\n","\x01")
for k,l in enumerate([x for x in s.split("\n") if x]): open("/tmp/jsref-validate/c/%03d.js"%k,"w").write(l.replace("\x01","\\\n"))
P
cd .. && RUSTUP_TOOLCHAIN=1.92.0 CARGO_TARGET_DIR=/tmp/jsref-validate/target cargo build --offline -q --example run 2>&1 | grep -E "^error" -A8
/tmp/jsref-validate/target/debug/examples/run /tmp/jsref-validate/c/*.js | sed 's|^== .*/0*\([0-9][0-9]*\)\.js|== \1|' > /tmp/jsref-validate/ours.txt
diff /tmp/jsref-validate/node.txt /tmp/jsref-validate/ours.txt
