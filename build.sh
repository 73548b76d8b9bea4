#!/bin/bash
# builds the simulator, its preload library and stand-ins, and the compiler from /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/build" || exit 2
(
    cd "$here/sim" && CARGO_INCREMENTAL=0 cargo build --release --offline --target-dir "$here/build/sim" > "$here/build/sim.log" 2>&1
) & a=$!
(
    cd "$here/shim" &&
    gcc -O1 -Wall -shared -fPIC -o "$here/build/shim.so.new" shim.c -ldl -lpthread &&
    gcc -O1 -Wall -o "$here/build/simcpp.new" simcpp.c &&
    mv "$here/build/shim.so.new" "$here/build/shim.so" && mv "$here/build/simcpp.new" "$here/build/simcpp"
) > "$here/build/shim.log" 2>&1 & b=$!
(
    cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 \
        cargo build --locked --offline --bin c_to_wasm_compiler --target-dir "$here/build/cc" > "$here/build/cc.log" 2>&1
) & c=$!
ok=0
wait $a || { echo "the simulator does not build:"; tail -20 "$here/build/sim.log"; ok=2; }
wait $b || { echo "the preload library does not build:"; tail -20 "$here/build/shim.log"; ok=2; }
wait $c || { echo "the compiler does not build:"; tail -20 "$here/build/cc.log"; ok=2; }
exit $ok
