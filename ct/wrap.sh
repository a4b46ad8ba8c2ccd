#!/bin/sh
# rustc wrapper: instrumentation of every edge, every load and store address and every memory
# intrinsic, for the library under test and for the crate that instantiates its generic
# functions, nothing else. The passes run after optimisation and need no sanitizer attribute,
# so the instrumented code is the optimised code.
case " $* " in
  *" --crate-name ntrust_native "*|*" --crate-name ntrust_ct_ops "*)
    exec "$@" "-Cpasses=sancov-module memprof" -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-memprof-use-callbacks -Cllvm-args=-memprof-instrument-stack ;;
esac
exec "$@"
