#!/bin/sh
# Compile the crates under test with every atomic access turned into a call into
# the simulator (LLVM's thread-sanitizer pass, atomics only, no sanitizer runtime).
case "${CARGO_PKG_NAME:-}" in
hop | hop-*)
  RUSTC_BOOTSTRAP=1; export RUSTC_BOOTSTRAP
  exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
    -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
    -Cllvm-args=-tsan-instrument-memintrinsics=0 --cap-lints warn
  ;;
hopsim)
  RUSTC_BOOTSTRAP=1; export RUSTC_BOOTSTRAP
  exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer
  ;;
simcore | "")
  exec "$@"
  ;;
*)
  exec "$@" --cap-lints allow
  ;;
esac
