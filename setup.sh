#!/bin/bash
# Builds both check binaries.
V=$(cd "$(dirname "$0")" && pwd)
"$V/check.sh" build && "$V/check.sh" C25 --cases 100 --out "$V/target/setup"
