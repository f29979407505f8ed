#!/bin/bash
# Checks that the harness can be built offline; every check builds itself from /repo again.
cd "$(dirname "$0")" || exit 2
mkdir -p target replays evidence
cargo --version && cargo metadata --offline --format-version 1 --manifest-path harness/Cargo.toml >/dev/null
