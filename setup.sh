#!/bin/sh
# nothing to build ahead: every check compiles what it needs; make sure the tools are there
cd "$(dirname "$0")" || exit 1
command -v clang >/dev/null || { echo 'clang is missing'; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VF_REPO:-/repo}:$PWD" /opt/venv/bin/python - <<'P'
import json
from vf import core, oracle
core.ct()
assert oracle.probe_ints('struct a { char x; int y; };', ['sizeof(struct a)'])[0] == 8
json.load(open('MANIFEST.json'))
print('ready')
P
