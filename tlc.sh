#!/bin/bash
# tlc.sh MODULE.tla CFG [args]   (run in /verif/spec; quiet)
cd /verif/spec || exit 2
export SPECDIR=/verif/spec
m=$(mktemp -d /tmp/tlcmeta.XXXXXX); trap 'rm -rf "$m"' EXIT
java -XX:+UseParallelGC -Xss64m -Xmx${TLC_MEM:-8g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers ${TLC_WORKERS:-8} -metadir "$m" -config "$2" "${@:3}" "$1" 2>&1 | grep -v '^Semantic\|^Linting\|^Parsing'
exit ${PIPESTATUS[0]}
