#!/bin/bash
# builds the monitors together with the compiler in /repo's working tree
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/harness" && exec cargo build --offline "$@"
