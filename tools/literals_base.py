#!/usr/bin/env python3
"""Record the literals of /repo's headers as they are now in harness/literals_base.json (see run.literals)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import run
json.dump(run.file_literals(), open(os.path.join(run.HARN, 'literals_base.json'), 'w'), indent=0, sort_keys=True)
