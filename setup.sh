#!/bin/bash
# Puts hypothesis (and its pure dependencies) where the checks find it. Offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec 9>"$here/.setup.lock"; flock 9
[ -d "$here/.deps/hypothesis" ] && { echo "setup: .deps present"; exit 0; }
tmp="$here/.deps.tmp.$$"
/opt/venv-pb5/bin/python -m pip --version >/dev/null 2>&1 && PY=/opt/venv-pb5/bin/python || PY=python3-vt
"$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-compile --target "$tmp" hypothesis || exit 2
# pre-compute hypothesis's unicode tables (otherwise every process does)
HYPOTHESIS_STORAGE_DIRECTORY="$tmp/storage" PYTHONPATH="$tmp" "$PY" -B -c "
from hypothesis import given, settings, strategies as st
@settings(database=None, max_examples=20)
@given(st.text(st.characters(codec='utf-8')), st.text())
def t(a, b): pass
t()" || true
mv "$tmp" "$here/.deps" && echo "setup: installed hypothesis into .deps"
