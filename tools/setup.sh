#!/bin/bash
# builds the driver and the TLC overrides, and parses every specification
cd "$(dirname "$0")/.." || exit 1
exec python3 tools/check.py setup
