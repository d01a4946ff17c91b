#!/bin/bash
# Builds what the quick checks use, from /repo's working tree (offline).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m vf.setup
