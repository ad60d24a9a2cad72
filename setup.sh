#!/bin/bash
# builds the IR dumper used by every check (cached in /verif/build, which is not committed)
set -e
cd "$(dirname "$0")"
python3 -B -c "import sys; sys.path.insert(0,'sa'); import ir; print(ir.irdump_path())"
