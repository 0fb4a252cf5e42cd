#!/bin/bash
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence
bash engine/build.sh build/cv
