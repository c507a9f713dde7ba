#!/usr/bin/env python3
"""basecheck.py OUT.json: the stable tests that did not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
p = set(json.load(open(sys.argv[1]))['passed'])
print('missing:', [t for t in b if t not in p])
