#!/bin/bash
# Builds everything the checks need, offline.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" harness & a=$!
bash "$here/build.sh" brack & b=$!
wait $a; ra=$?
wait $b; rb=$?
[ $ra = 0 ] && [ $rb = 0 ]
