#!/bin/sh
# tlc.sh CONFIG MODULE [options]: TLC with the libraries this project uses
cfg=$1; mod=$2; shift 2
d=$(mktemp -d /tmp/tlcXXXXXX)
java -XX:+UseParallelGC -Xmx${TLC_MEM:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${TLC_WORKERS:-8} -metadir "$d" -config "$cfg" "$@" "$mod"
r=$?; rm -r "$d"; exit $r
