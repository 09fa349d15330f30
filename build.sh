#!/bin/bash
# Builds, from /repo's working tree, the real programs; then the simulator.
# Everything goes under /verif/target (ignored by git).
set -e
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never LC_ALL=C.UTF-8
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE
T=$V/target
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
cd /repo
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
# Cargo only sees newer mtimes: touch each file whose content changed since the last build here.
git ls-files -z -co --exclude-standard | xargs -0 sha256sum 2>/dev/null | sort > "$T/.sums.new"
if [ -f "$T/.sums" ]; then
    comm -13 "$T/.sums" "$T/.sums.new" | cut -c67- | tr '\n' '\0' | xargs -0 -r touch -c --
fi
mv "$T/.sums.new" "$T/.sums"
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0
case ",$1," in
*,cli,*)
    CARGO_TARGET_DIR=$T/repo RUSTFLAGS=-Awarnings cargo build -q --offline -p tldr -p treeldr-gen-rust 9>&-
    mkdir -p "$T/simos"
    if [ ! -f "$T/simos/simos.so" ] || [ "$V/simos/simos.c" -nt "$T/simos/simos.so" ] || [ "$V/simos/simos.h" -nt "$T/simos/simos.so" ]; then
        gcc -O2 -shared -fPIC -fno-builtin -w -o "$T/simos/simos.so" "$V/simos/simos.c"
    fi
    unset CARGO_PROFILE_DEV_OPT_LEVEL
    (cd "$V/sim" && CARGO_TARGET_DIR=$T/sim cargo build -q --offline 9>&-)
    ;;
esac
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
lib() {
    (cd "$V/libsim" && CARGO_TARGET_DIR=$T/libsim RUSTC_WRAPPER=$V/libsim/cover.sh RUSTFLAGS=-Awarnings cargo build -q --offline --target x86_64-unknown-linux-gnu "$@" 9>&- 2>"$T/libsim.log" || { cat "$T/libsim.log" >&2; exit 1; })
}
case ",$1," in
*,lib,*) lib --bin libsim ;;
esac
case ",$1," in
*,derived,*) lib --bin libsim-derived --features derived ;;
esac
