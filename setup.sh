#!/bin/bash
# Builds the simulator, with rustextile from /repo's working tree, offline.
cd "$(dirname "$0")/sim" && exec cargo build --release --offline --locked
