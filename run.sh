#!/bin/bash
# run.sh <property>: rebuilds the simulator from /repo's working tree and decides the property
# (VERIF_SEED: seed; VERIF_TIER: quick or thorough; exit 0 held, 1 violated, 2 no answer)
here="$(cd "$(dirname "$0")" && pwd)"
case "$1" in C18) variant=info; bin=target/info/release/nrfsim ;; *) variant=; bin=target/release/nrfsim ;; esac
mkdir -p "$here/target" "$here/evidence" "$here/replays"
out=$(flock "$here/target/.lock" bash "$here/build.sh" $variant 2>&1)
if [ $? -ne 0 ]; then
  echo "$out" | tail -40 >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
exec "$here/$bin" check "$1"
