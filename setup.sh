#!/bin/sh
# builds the IR dumper
cd "$(dirname "$0")" && exec python3 -c 'import sys; sys.path.insert(0, "sa"); import unit; unit.ensure_irdump()'
