#!/bin/bash
# check.sh PROPERTY [quick|thorough]: analyses /repo's current sources and decides one property.
cd "$(dirname "$0")" || exit 2
if [ ! -f tool/build/done ]; then bash ./setup.sh >&2 || exit 2; fi
. ./env.sh
exec timeout -k 5 "${VERIF_LIMIT:-850}" "$J/java" -Xmx6g -Dstubs="$PWD/tool/build/stubs" -Dverif="$PWD" -Drepo="${REPO:-/repo}" -cp "tool/build/classes:$CP" sa.Main "$1" "${2:-quick}"
