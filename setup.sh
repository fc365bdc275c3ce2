#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 2
python3 -c '
import vlib
vlib.build_java()
vlib.build_harness()
vlib.build_harness("harness_serde", "cavs")
'
