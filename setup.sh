#!/bin/bash
# Builds the analyser and its library stubs into tool/build (git-ignored). Offline, JDK 21.
set -e
cd "$(dirname "$0")"
. ./env.sh
rm -rf "$PWD/tool/build"
mkdir -p tool/build/classes tool/build/stubs
"$J/javac" -nowarn -d tool/build/classes -cp "$CP" tool/src/sa/*.java 2>&1 | grep -v '^Note:' || true
"$J/javac" -nowarn -g -d tool/build/stubs -cp "$CAFFEINE" tool/stubs/zz/*.java 2>&1 | grep -v '^Note:' || true
test -f tool/build/classes/sa/Main.class && test -f tool/build/stubs/zz/N.class
touch tool/build/done
