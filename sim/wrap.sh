#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test (boostvoronoi*) and the simulator binary (the
# library is generic, most of its code is instantiated there) with a callback in front of every
# basic block, load and store.  Everything else is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name boostvoronoi"*|*" --crate-name bvsim "*)
    case " $* " in *" --crate-type proc-macro "*|*" --crate-name build_script"*) exec "$rustc" "$@";; esac
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Ccodegen-units=8;;
esac
exec "$rustc" "$@"
