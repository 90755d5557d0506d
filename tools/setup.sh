#!/bin/bash
# Builds the engine, the runner and the dependencies of the harness in every configuration.
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT=$PWD
bash tools/mkengine.sh && .build/engine/release/symex build
