#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Lowers /repo's current source to MIR, analyses it, writes evidence/PROPERTY.json.
# exit 0 held, exit 1 + VIOLATION line, exit 2 the check itself could not run.
P=$1
T=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
mkdir -p .work evidence
./setup.sh >.work/setup.$P.log 2>&1 || { cat .work/setup.$P.log; echo "cannot build the analyser"; exit 2; }
D=.work/$P.bin
rm -f "$HERE/$D"
if ! ./extract.sh "$D" >.work/extract.$P.log 2>&1 || [ ! -s "$D" ]; then
  tail -30 .work/extract.$P.log
  echo "cannot lower /repo"
  exit 2
fi
./engine/target/release/engine "$D" check "$P" "$T" "evidence/$P.json" "$HERE/.work/replay-$P.txt" "$HERE/known-findings.txt"
R=$?
rm -f "$HERE/$D"
case $R in 0|1) exit $R;; *) exit 2;; esac
