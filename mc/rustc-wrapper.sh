#!/bin/sh
rustc=$1
shift
case " $* " in
  *" --crate-name sorock "*) exec "$rustc" "$@" -C passes=tsan -C llvm-args=-tsan-instrument-func-entry-exit=0 ;;
esac
exec "$rustc" "$@"
