#!/bin/bash
# builds both variants of the simulator
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/target" "$here/evidence" "$here/replays"
bash "$here/build.sh" && bash "$here/build.sh" info
