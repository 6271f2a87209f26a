#!/bin/bash
# mk.sh ID PROPERTY "deps" "needs" "breaks": records the change in /tmp/se as a planted bug (main.rs from stdin)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/se diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty patch; exit 1; }
git -C /tmp/se checkout -q -- .
cat > $d/main.rs
{
echo '[package]'; echo 'name = "demo"'; echo 'version = "0.1.0"'; echo 'edition = "2021"'; echo; echo '[workspace]'; echo; echo '[profile.dev]'; echo 'opt-level = 1'; echo 'debug = false'; echo; echo '[dependencies]'
for c in $3; do case $c in *=*) echo "${c//@@/ }";; *) echo "$c = { path = \"@REPO@/$c\" }";; esac; done; echo; echo '[patch.crates-io]'; echo 'derive-visitor = { path = "@REPO@/third_party/derive-visitor" }'
} > $d/Cargo.toml.in
cat > $d/demo.sh <<'X'
#!/bin/bash
# Builds main.rs against the crates of the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$t" && timeout 280 cargo build -q --offline || exit 1
timeout 20 "$t/target/debug/demo"
X
python3 - "$@" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[4],what_it_breaks=sys.argv[5]),open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
X
X=1
