#!/bin/bash
# dev helper: build and show only harness diagnostics
cd /verif/harness && CARGO_TARGET_DIR=/verif/target cargo build --offline --release 2>&1 --message-format short | grep -vE "^/repo/" | grep -E "^src|^error|Finished|could not" | head -${1:-60}
