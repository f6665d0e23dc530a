#!/bin/bash
# builds the simulator against /repo's current working tree
#   build.sh          the crate with its xml_config_file feature
#   build.sh info     also with additional_log_info (check C18)
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if [ "$1" = info ]; then
  exec cargo build --offline --release --quiet --target-dir ../target/info --features info
fi
exec cargo build --offline --release --quiet --target-dir ../target
