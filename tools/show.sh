#!/bin/bash
# Print the programs of a replay file.
python3 - "$1" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); w=d.get('world',d)
for pr in w['progs']:
  for i,o in enumerate(pr['ops']): print(i,json.dumps(o)[:int(sys.argv[2]) if len(sys.argv)>2 else 400])
print([v['note'] for v in w['variants']])
P
