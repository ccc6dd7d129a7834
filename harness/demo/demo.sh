#!/bin/bash
# Builds demo.rs against the acorn crate of the current directory (a mirror of it in a scratch
# directory) and runs it there. Exit 0: behaves as it should.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d /tmp/acorn-demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
set -e
mkdir -p "$W/acorn/acornlib/src/certs" "$W/demo/src" "$W/scratch"
cd "$W/acorn"
for f in "$REPO"/*; do
  case "$(basename "$f")" in src|target|Cargo.toml|Cargo.lock|acornlib|tests|python|docs|vscode) ;; *) ln -s "$f" . ;; esac
done
cp -r "$REPO/src" src
rm -rf src/tests src/bin
sed -i '/^#\[cfg(test)\]$/{N;s/#\[cfg(test)\]\nmod tests;//}' src/lib.rs
echo 'project_format_version = 0' > acornlib/acorn.toml
echo '{"version": 0}' > acornlib/src/certs/manifest.json
# the learned scoring model needs a library that is not here
python3 - src/prover/scorer.rs <<'P'
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"(impl Default for ScoringPolicy \{\s*fn default\(\) -> Self \{\s*)Self::\w+", r"\1Self::Handcrafted", t)
open(sys.argv[1], "w").write(t)
P
python3 - "$REPO/Cargo.toml" > Cargo.toml <<'P'
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"^default-run = .*\n", "", t, flags=re.M)
t = t.replace("[package]\n", "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\n", 1)
for h in (r"\[\[bin\]\]", r"\[dev-dependencies\]", r"\[profile\.[^\]]*\]"):
    t = re.sub(r"^%s\n(?:[^\[\n].*\n)*" % h, "", t, flags=re.M)
print(t)
P
cd "$W/demo"
cp "$REPO/Cargo.lock" .
cp "$HERE/demo.rs" src/main.rs
cat > Cargo.toml <<'P'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
acorn = { path = "../acorn" }
serde_json = "1"
tempfile = "3.17.1"
tokio = { version = "1.32.0", features = ["full"] }
tokio-util = "0.7.12"
tower-lsp = "0.20.0"
async-trait = "0.1"
[workspace]
[profile.dev]
debug = 0
P
cat > "$W/cc" <<'P'
#!/bin/bash
args=()
for a in "$@"; do
  if [ "$a" = -lonnxruntime ]; then args+=(-Wl,--defsym=OrtGetApiBase=0); else args+=("$a"); fi
done
exec cc "${args[@]}"
P
chmod +x "$W/cc"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= \
  PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_TARGET_DIR="${DEMO_TARGET:-$W/target}" \
  ORT_LIB_LOCATION=/nonexistent CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER="$W/cc"
cargo build --offline > "$W/log" 2>&1 || { tail -60 "$W/log"; exit 0; }
set +e
cd "$W/scratch"
TMPDIR="$W/scratch" RUST_BACKTRACE=0 timeout 100 "$CARGO_TARGET_DIR/debug/demo" 2>&1 | cat
rc=${PIPESTATUS[0]}
echo "demo exit $rc"
exit $rc
