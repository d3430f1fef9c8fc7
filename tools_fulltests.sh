#!/bin/bash
# Builds the repository's complete gtest suite against /verif/shim in a scratch directory and runs it,
# then compares the replay logs it writes with the committed ones (validates the Matrix stand-in).
set -eu
REPO=${1:-/repo}
W=$(mktemp -d /tmp/fulltests.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p $W/a/b/c; cp -a $REPO/test $W/test
cd $W
for f in $REPO/EKF/*.cpp $REPO/geo/*.cpp $REPO/geo_lookup/*.cpp $REPO/airdata/*.cpp $REPO/test/*.cpp $REPO/test/sensor_simulator/*.cpp $REPO/test/test_helper/*.cpp; do
  g++ -std=c++14 -O2 -w -DECL_STANDALONE -I/verif/shim -I$REPO -I$REPO/EKF -I$REPO/test -c $f -o $W/$(echo $f | tr / _).o &
done; wait
g++ $W/*.o -lgtest -lpthread -o $W/t
cd $W/a/b/c; $W/t > $W/out.txt 2>&1 || true
grep -E "^\[  (FAILED|PASSED)" $W/out.txt || tail -5 $W/out.txt
cd $W/test
for f in change_indication/*.csv; do python3 - $f $REPO/test/$f <<'PY'
import sys,csv
a=list(csv.reader(open(sys.argv[1]))); b=list(csv.reader(open(sys.argv[2])))
m=0; n=0
for r,s in zip(a[1:],b[1:]):
    for x,y in zip(r,s):
        try: x=float(x); y=float(y)
        except ValueError: continue
        n+=1
        m=max(m,abs(x-y)/(1e-2+abs(y)))
print(sys.argv[1],'rows',len(a),len(b),'values',n,'max relative deviation',m)
PY
done
