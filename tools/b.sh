#!/bin/bash
# development aid: build the translator
cd "$(dirname "$0")/vx" && CARGO_TARGET_DIR=../../build/vx cargo build --offline 2>&1 | grep -E "^error" -A9
