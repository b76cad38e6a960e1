#!/bin/bash
# Runs the check of one property against /repo's working tree. Usage: check.sh ID [extra engine options]
cd "$(dirname "$0")" || exit 2
verif=$PWD
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
source ./env.sh
./build_engine.sh || exit 2
prop=$1
shift
work=$(mktemp -d /tmp/sx-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
"$JAVA_HOME/bin/java" -Xmx20g -Xss8m $SX_JAVA -XX:+UseParallelGC --add-opens java.base/java.util=ALL-UNNAMED --add-opens java.base/java.lang=ALL-UNNAMED \
    -Djava.io.tmpdir="$work" -cp "$verif/engine/out:$ENGINE_CP" sx.Main \
    --prop "$prop" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --verif "$verif" --repo "${SX_REPO:-/repo}" --work "$work" \
    --cp "$verif/engine/out:$SPOTBUGS" "$@"
exit $?
