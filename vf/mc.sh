#!/bin/bash
# run one model configuration by hand: vf/mc.sh MODULE CFGFILE
cd /verif && /opt/venv/bin/python - "$@" <<'P'
import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from vf import tlc
r=tlc.run(sys.argv[1],open('/verif/spec/cfg/'+sys.argv[2]).read(), args=sys.argv[3:])
print('\n'.join(l for l in r.out.splitlines() if not l.startswith('"CASE') and 'Parsing file' not in l and 'Semantic proc' not in l)[-3500:]); print(r.out.count('"CASE'),'cases', r.wall)
P
