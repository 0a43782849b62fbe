#!/bin/bash
# usage: tools/seedtest.sh ID...   confirm planted bugs in a scratch copy: applies, tests pass, demo 0 -> nonzero
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedtest.XXXXXX)
  cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; cd "$W/repo"
  export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$W/pyc PYTEST_DISABLE_PLUGIN_AUTOLOAD=1
  timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1; a=$?
  if ! git apply "$S/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; continue; fi
  timeout 300 bash "$W/demo/demo.sh" >"$W/o2" 2>&1; b=$?
  /opt/venv/bin/python -m pytest -q -p xdist -p pytest_timeout -p no:cacheprovider -n 6 --timeout=300 -W ignore::SyntaxWarning tests >"$W/t" 2>&1; t=$?
  echo "$id: clean=$a patched=$b tests=$t $(tail -1 "$W/t")"
  [ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] || { tail -n 5 "$W/o1" "$W/o2"; grep -E "^(FAILED|ERROR)" "$W/t"; }
  cd /; find "$W" -delete
done
