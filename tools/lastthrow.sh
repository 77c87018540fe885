#!/bin/bash
# debugging aid: backtrace of the last C++ throw in a replayed counterexample: tools/lastthrow.sh C06-0
f=/verif/evidence/replay/$1.txt; sc=$(sed -n 's/^scenario: //p' $f); exe=$(sed -n "s/^replay: .*> in; \([^ ]*\) .*/\1/p" $f)
d=$(mktemp -d); cd $d; sed -n 's/^inputs: //p' $f > in
(echo "set breakpoint pending on"; echo "set follow-fork-mode child"; echo "break __cxa_throw"; echo run; for i in $(seq 40); do echo "bt 14"; echo continue; done) > g
ASAN_OPTIONS=detect_leaks=0 gdb -batch -x g --args $exe --scenario $sc --replay in --out out 2>&1 | awk '/hit Breakpoint/{b=""} {b=b"\n"$0} END{print b}' | grep "^#" | cut -c1-170
rm -r $d
