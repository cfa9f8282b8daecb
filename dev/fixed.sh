#!/bin/bash
# fixed.sh PROP COMMIT TEXT : append a fixed entry
python3 - "$@" <<'P'
import json,sys
f='/verif/known_findings.json'; k=json.load(open(f)); k['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4])); json.dump(k,open(f,'w'),indent=1)
P
