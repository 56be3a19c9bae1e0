#!/bin/bash
# rustc wrapper: instruments hongdown's own crates (lib and bin) with SanitizerCoverage callbacks, which the
# simulator uses as preemption points; dependencies and the build script are compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name hongdown "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores -C link-arg=-Wl,--unresolved-symbols=ignore-all ;;
  *) exec "$rustc" "$@" ;;
esac
