#!/bin/bash
# Nothing to build: checks that the interpreter and the sources are usable.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore - <<'EOF'
import sys
sys.path.insert(0, ".")
from vlib import loader
loader.install()
import hypothesis, numpy, scipy
import echidna.core.spectra
print("ready: hypothesis %s, numpy %s, scipy %s" % (
    hypothesis.__version__, numpy.__version__, scipy.__version__))
EOF
