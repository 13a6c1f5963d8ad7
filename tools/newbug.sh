#!/bin/bash
# tools/newbug.sh ID PROP "needs" "what": take the current diff of /tmp/plant/repo as a planted bug (main.rs on stdin)
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/plant/repo diff > $d/patch.diff
git -C /tmp/plant/repo checkout -q -f .
cat > $d/main.rs
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
cat > $d/demo.sh <<'D'
#!/bin/bash
# builds main.rs (beside this file) against the crates in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 9; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
textual = { path = "$repo/crates/textual" }
tcss = { path = "$repo/crates/tcss" }
rich = { path = "$repo/crates/rich" }
crossterm = "*"
tokio = { version = "1", features = ["rt", "time", "macros", "sync"] }
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cd "$d" && cargo build --offline -q && exec timeout 120 "$CARGO_TARGET_DIR/debug/demo"
D
