#!/bin/bash
# nothing to build: the monitors are Python and import HGQ from /repo/src; make sure the interpreter and the code under test are there
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'P'
import ast, glob, os
for f in glob.glob('vlib/**/*.py', recursive=True) + ['vrun.py']:
    ast.parse(open(f).read())
import hgq_tf_compat  # noqa
import HGQ
assert os.path.realpath(HGQ.__file__).startswith('/repo/'), HGQ.__file__
print('ready')
P
