"""replay.py FILE: run the failing input of a violation against the current tree"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import check as C

d = json.load(open(sys.argv[1]))
w = B.build({})
if 'failing_input' not in d:
    print(json.dumps(d, indent=1))
    sys.exit(0)
f = C.replay(w, d['root'], d['property'], d['failing_input'])
print(json.dumps(f, indent=1))
sys.exit(1 if f else 0)
