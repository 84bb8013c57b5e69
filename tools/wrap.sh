#!/bin/bash
# rustc for the coverage-guided build: only the code under test is instrumented
rustc="$1"; shift
case " $* " in
*" --crate-name faerie "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
*) exec "$rustc" "$@" ;;
esac
