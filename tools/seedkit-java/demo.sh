#!/bin/bash
# Runs the demonstration against the Java binding that build.sh made in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd)
j=$PWD/_build/src/wickrcrypto/swig/java
tmp=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
javac -nowarn -encoding UTF-8 -cp "$j/wickrcryptojava.jar" -d classes "$here/Demo.java" || { echo "compile error"; exit 2; }
mkdir work && cd work || exit 2
# released memory is overwritten, so that reading it shows
export MALLOC_PERTURB_=165 MALLOC_CHECK_=3 MALLOC_TCACHE_COUNT=0
timeout 240 java -Xshare:auto -Xint -XX:+UseSerialGC -XX:-CreateCoredumpOnCrash -XX:ErrorFile=/dev/null -XX:-UsePerfData \
    -Djava.library.path="$j" -cp "../classes:$j/wickrcryptojava.jar" Demo > out 2>&1
rc=$?
cut -c1-300 out | head -20
[ $rc = 0 ] && grep -q '^PASSED' out
