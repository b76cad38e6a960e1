#!/bin/bash
# Compiles the engine to /verif/engine/out. Usage: build_engine.sh [force]
set -eo pipefail
cd "$(dirname "$0")"
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
source ./env.sh
if [ "$1" != force ] && [ -f engine/out/.stamp ] && [ -z "$(find engine/src -newer engine/out/.stamp -name '*.java')" ]; then
    exit 0
fi
tmp=$(mktemp -d)
"$JAVA_HOME/bin/javac" -nowarn -Xlint:none -XDignore.symbol.file -proc:none -g -cp "$ENGINE_CP" -d "$tmp" engine/src/sx/*.java 2>&1 | { grep -v "^Note:" || true; }
mkdir -p engine/out
cp -r "$tmp"/. engine/out/
touch engine/out/.stamp
rm -rf "$tmp"
