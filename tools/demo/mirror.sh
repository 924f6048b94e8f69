#!/bin/bash
# builds demo.rs with crates of /repo in a scratch workspace (stand-ins for what comes from git), and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/h/driver/src"
cp -r "$here/mirror/." "$t/h"
cp "$here/demo.rs" "$t/h/driver/src/main.rs"
{
  printf '[package]\nname = "driver"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
  for c in @CRATES@; do
    case $c in
      ff) echo 'ff = {package="ff_ce" , version="0.12", features = ["derive"]}' ;;
      ff13) echo 'ff = { version = "0.13.0", features = ["derive"] }' ;;
      ark_bls12_381) echo 'ark-bls12-381 = { version = "0.5.0", default-features = false, features = ["curve"] }' ;;
      anyhow) echo 'anyhow = "1.0"' ;;
      serde_json) echo 'serde_json = "1.0"' ;;
      ark_*) grep -hE "^$(echo $c | tr _ -) *=" /repo/recursion-gnark/ffi/Cargo.toml ;;
      recursion-gnark-ffi) echo "$c = { path = \"../recursion-gnark/ffi\" }" ;;
      *) echo "$c = { path = \"../$c\" }" ;;
    esac
  done
} > "$t/h/driver/Cargo.toml"
export CARGO_TARGET_DIR=$t/target RUSTFLAGS="-A warnings @FLAGS@"
python3 "$t/h/mkmirror.py" || exit 3
(cd "$t/build/ws" && cargo build -q --release --offline -p driver) || exit 3
(cd "$t" && timeout 200 "$t/target/release/driver")
