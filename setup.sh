#!/bin/bash
# builds the MIR dumper and the first dump (every check also does this on its own when needed)
cd "$(dirname "$0")" && python3 - <<'P'
import sys
sys.path.insert(0, 'engine')
import check
try: print(check.dump())
except Exception as e: print('setup: the checks will rebuild:', e)
P
