# Sourced by demo.sh (copied beside it): builds a small driver around the generator in $PWD
# (the repository) in a scratch directory $T that goes away at the end.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
export PYTHONDONTWRITEBYTECODE=1 JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_CFG_TARGET_POINTER_WIDTH RUST_LOG
T=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/drv/src" "$T/out"
cp "$HERE/drv.rs" "$T/drv/src/main.rs"
cp "$HERE/drv.lock" "$T/drv/Cargo.lock"
cat > "$T/drv/Cargo.toml" <<X
[package]
name = "vgen"
version = "0.0.0"
edition = "2021"
[dependencies]
flapigen = { path = "$REPO/macroslib" }
proc-macro2 = "1"
[workspace]
X
(cd "$T/drv" && CARGO_TARGET_DIR="$T/target" cargo build -q --offline) || { echo "driver does not build"; exit 9; }
GEN="$T/target/debug/vgen"
gen() { "$GEN" "$@"; }
rs_static() { rustc --edition=2021 -Awarnings -O --crate-type=staticlib -o "$T/libd.a" "$1"; }
# cpp SRC OUT: C++ program with the generated headers and the Rust library
cpp() { clang++ -std=c++17 -Wno-everything -g $CXXX -I "$T/out" "$1" "$T/libd.a" -lpthread -ldl -o "$2"; }
CXXX=""
# java: compiles the generated package ($T/src/vns), $T/Main.java and the cdylib from $T/in.rs.in + $T/lib.rs, runs vns.Main
# (lib.rs: `pub mod glue` and the JNI header are added here; jni_c_header.rs lies beside demo.sh)
java_demo() {
  mkdir -p "$T/src/vns" "$T/cls"
  gen --lang java --out "$T/src/vns" --ns vns --dst "$T/glue.rs" --src "$T/in.rs.in" --ptr-width 64 $GENX || exit 3
  cp "$T/Main.java" "$T/src/vns/"
  { echo '#![allow(warnings)]'; echo "#[path = \"$HERE/jni_c_header.rs\"] pub mod jni_c_header;"
    echo 'pub mod log { macro_rules! vlog { ($($t:tt)*) => { { let _ = format!($($t)*); } } } pub(crate) use {vlog as error, vlog as warn, vlog as info, vlog as debug, vlog as trace}; }'
    cat "$T/lib.rs"; echo 'pub mod glue { use crate::{log, jni_c_header::*}; include!("glue.rs"); }'; } > "$T/all.rs"
  rustc --edition=2021 -Awarnings -O --crate-type=cdylib --crate-name vd -o "$T/libvd.so" "$T/all.rs" || exit 4
  "$JAVA_HOME/bin/javac" -nowarn -d "$T/cls" "$T"/src/vns/*.java || exit 5
  timeout -k 5 100 "$JAVA_HOME/bin/java" -Xmx512m $JVMX -cp "$T/cls" vns.Main "$T/libvd.so"
}
# py_demo: extension module vd from $T/in.rs.in + $T/lib.rs, runs $T/main.py with it on the path
py_demo() {
  mkdir -p "$T/py/src" "$T/pyo"
  gen --lang python --out "$T/pyo" --ns vd --dst "$T/glue.rs" --src "$T/in.rs.in" --ptr-width 64 || exit 3
  { echo '#![allow(warnings)]'; cat "$T/lib.rs"; echo 'pub mod glue { include!("../../glue.rs"); }'; } > "$T/py/src/lib.rs"
  cp "$HERE/py.lock" "$T/py/Cargo.lock"
  printf '[package]\nname = "pyrt"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type = ["cdylib"]\n[dependencies]\ncpython = { version = "0.7.0", features = ["extension-module"] }\n[workspace]\n' > "$T/py/Cargo.toml"
  (cd "$T/py" && PYTHON_SYS_EXECUTABLE=/usr/bin/python3 CARGO_TARGET_DIR="$T/pyt" cargo build -q --offline) || exit 4
  cp "$T"/pyt/debug/libpyrt.so "$T/pyo/vd.so"
  PYTHONPATH="$T/pyo" timeout -k 5 60 /usr/bin/python3 "$T/main.py"
}
GENX=""; JVMX=""
