#!/bin/bash
# Builds the simulator and the real programs from /repo's current working tree.
set -e
cd "$(dirname "$0")"
V=$PWD
export CARGO_TARGET_DIR=$V/build CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p build
exec 9>build/.lock
flock 9
[ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
# cargo trusts file times; copies and checkouts do not keep them in step with contents
stamp=$(find /repo/src /repo/iso-tool /repo/disc-riider-py /repo/Cargo.toml harness/src harness/Cargo.toml harness/Cargo.lock shim py -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat build/.stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f build/.stamp
    if [ -d build/release ]; then
        (cd harness && cargo clean --release --offline -q -p disc_riider -p simcheck) || true
    fi
    if [ -d build/progs/release ]; then
        (cd /repo && CARGO_TARGET_DIR=$V/build/progs cargo clean --release --offline -q -p disc_riider -p iso-tool -p disc-riider-py) || true
    fi
fi
cargo build --release --offline -q --manifest-path harness/Cargo.toml --bin simcheck
if cargo build --release --offline -q --manifest-path harness/Cargo.toml --bin disc_riider_copy; then
    cp -f build/release/disc_riider_copy build/disc_riider_copy.new
    mv build/disc_riider_copy.new build/disc_riider_copy
else
    rm -f build/disc_riider_copy # the library no longer offers the copy
fi
mkdir -p build/pymod
gcc -O2 -w -fno-delete-null-pointer-checks -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC -o build/simshim.so.new shim/simshim.c -ldl -lpthread
mv build/simshim.so.new build/simshim.so
export CARGO_TARGET_DIR=$V/build/progs PYO3_PYTHON=/usr/bin/python3.12
(cd /repo && cargo build --release --offline -q -p iso-tool && cargo build --release --offline -q -p disc-riider-py --features pyo3/extension-module)
cp -f build/progs/release/libdisc_riider_py.so build/pymod/disc_riider_py.so.new
mv build/pymod/disc_riider_py.so.new build/pymod/disc_riider_py.so
cp -f build/progs/release/iso-tool build/iso-tool.new
mv build/iso-tool.new build/iso-tool
cp -f py/driver.py build/driver.py
chmod -R a+rX build/pymod $(ls build/disc_riider_copy 2>/dev/null) build/iso-tool build/simshim.so build/driver.py
echo "$stamp" > build/.stamp
