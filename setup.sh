#!/bin/bash
# Builds the simulators once, so that a missing tool shows up before the checks. Every check builds again by itself.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/lib.sh"
build_load && build_code && build_macro
