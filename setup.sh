#!/bin/bash
# Builds the explorer and the tools around it from the committed files and /repo's current tree (offline).
set -e
cd "$(dirname "$0")"
python3 - <<'EOF'
import check
from native import cli, conform

check.build_mc()
cli.build()
conform.build()
EOF
