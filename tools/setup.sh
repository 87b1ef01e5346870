#!/bin/bash
# Compiles the C helpers into build/ (checks also do so on demand).
cd "$(dirname "$0")/.." || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'lib')
import core, os
for f in sorted(os.listdir('lib/csrc')):
    if f.endswith('.c'): core.clib(f[:-2])
print('ok')"
