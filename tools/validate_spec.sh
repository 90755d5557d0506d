#!/bin/bash
# Compares the reference functions of harness/src/spec.rs with Python's hashlib/hmac: the harness
# entries are run natively on pseudo-random inputs; they exit 0 only if library and reference agree,
# and print the digest, which is compared with Python's here.
cd "$(dirname "$0")/.." || exit 2
bash tools/mkengine.sh && .build/engine/release/symex build std >/dev/null || exit 2
exec python3 tools/validate_spec.py
