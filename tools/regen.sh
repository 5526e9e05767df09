#!/bin/bash
cd "$(dirname "$0")/.." && python3 -B tools/gen_properties.py && python3 -B tools/gen_known.py && python3 -B tools/gen_manifest.py
python3 "$(dirname "$0")/gen_design.py"
