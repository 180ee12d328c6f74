#!/bin/bash
# Developer aid (no check uses it): builds upstream's own unit tests for the tree
# in $1 (default /repo) with the shims and runs them, then the shell testcases.
set -e
R=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/upstream.XXXXXX); trap 'rm -rf "$T"' EXIT
G=$T/gen/stl-to-ps; mkdir -p "$G"
bison -Wno-deprecated --defines=$G/parser.tab.h -o $G/parser.tab.cc $R/stl-to-ps/parser.y
flex --header-file=$G/lexer.yy.h -o $G/lexer.yy.cc $R/stl-to-ps/lexer.l
F="-std=c++17 -w -O0 -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I$V/shim -I$T/gen -I$R -isystem /usr/include/eigen3"
L="$(pkg-config --libs absl_flags absl_flags_parse absl_strings absl_str_format absl_time) -l:libre2.so.10"
for f in $R/stl-to-ps/*.cc $G/*.cc; do
  b=$(basename $f .cc); x=-fno-exceptions
  case $b in parser|parser.tab|lexer.yy) x=-fexceptions;; esac
  case $b in *_test) x="-fexceptions -I$R/stl-to-ps -include $R/stl-to-ps/stl-to-ps-impl.h -include $R/stl-to-ps/center.h";; esac
  echo "g++ $F $x -c $f -o $T/$b.o"
done | xargs -P8 -I{} sh -c '{}'
LIB=$(ls $T/*.o | grep -v -e _test.o -e test_main.o -e stl-to-ps-main.o)
for t in $T/*_test.o; do g++ -o ${t%.o} $t $LIB $L -lgmock -lgtest -lgtest_main -lpthread; (cd $R; ${t%.o} 2>/dev/null | grep -E '^\[  (PASSED|FAILED)' ); done
g++ -o $T/stl-to-ps $T/stl-to-ps-main.o $LIB $L
cd $R
for e in testcases/*.example; do $T/stl-to-ps --script=$e --output=$T/o.ps --load_path=$R/testcases && echo ok $e; done
for e in testcases/*.case; do [ -s $e ] || continue; $T/stl-to-ps --script=$e --output=$T/o.ps --load_path=$R/testcases 2>/dev/null && echo BAD $e || echo ok $e; done
