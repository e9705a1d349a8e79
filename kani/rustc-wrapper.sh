#!/bin/bash
# RUSTC_WRAPPER for `cargo kani`.
#
# The crate under verification (carron) is compiled by the plain rustc of Kani's own toolchain with
# exactly the flags Kani asks for, except that overflow checks stay off -- as /repo/Cargo.toml's
# profile says and as the emulator is run -- and that the hooks (`--cfg carron_verif`) are on.
# Kani then takes carron's MIR from that compilation.  Everything else goes to kani-compiler.
rc="$1"; shift
name=""; prev=""
for x in "$@"; do [ "$prev" = --crate-name ] && name="$x"; prev="$x"; done
[ "$name" = carron ] || exec "$rc" "$@"
a=()
for x in "$@"; do
  case "$x" in
    overflow-checks=on) a+=("overflow-checks=off") ;;
    -Coverflow-checks=on) a+=("-Coverflow-checks=off") ;;
    --kani-compiler | -Cllvm-args=*) ;;
    *) a+=("$x") ;;
  esac
done
exec "$(dirname "$rc")/../toolchain/bin/rustc" "${a[@]}" --cfg carron_verif
