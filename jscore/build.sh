#!/bin/bash
# build.sh OUT MODULE...: compiles the runtime and the given modules of /repo/javascore into OUT (rt, app)
set -e
D=$(cd "$(dirname "$0")" && pwd)
SRC=${VERIF_REPO:-/repo}/javascore
OUT=$1; shift
mkdir -p "$OUT/rt" "$OUT/proc" "$OUT/app"
EX="--add-exports java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"
javac -nowarn -Xlint:none -proc:none $EX -d "$OUT/rt" $(find "$D/rt" -name '*.java' | sort)
javac -nowarn -Xlint:none -proc:none -d "$OUT/proc" $(find "$D/proc" -name '*.java')
FILES=
for m in "$@"; do FILES="$FILES $(find "$SRC/$m/src/main/java" -name '*.java' | sort)"; done
javac -nowarn -Xlint:none -parameters -g -cp "$OUT/rt" -processorpath "$OUT/proc" -processor verif.Proc -d "$OUT/app" $FILES
