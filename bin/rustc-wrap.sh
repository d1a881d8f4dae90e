#!/bin/sh
# RUSTC_WRAPPER: compiles the code under test (and the thin layer that instantiates its generics) with
# LLVM's thread-sanitizer instrumentation, so that every memory access and every atomic operation calls
# into the simulator (simrt), which provides the __tsan_* entry points. Everything else is built plainly.
rustc="$1"; shift
case " $* " in
  *" --crate-name succinct_neo "*|*" --crate-name glue "*)
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-handle-cxx-exceptions=0 \
      -Cllvm-args=-tsan-instrument-read-before-write=1 ;;
esac
exec "$rustc" "$@"
