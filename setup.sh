#!/bin/sh
# Nothing to build: the specifications are interpreted by TLC and the code under test is imported
# from /repo.  This checks that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import quicktions, pysat' || exit 1
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd spec || exit 1
java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY *.tla > "$T/sany.txt" 2>&1 || { tail -40 "$T/sany.txt"; exit 1; }
if grep -q -e '\*\*\* Errors' -e 'Fatal errors' -e 'Could not parse' "$T/sany.txt"; then grep -A8 -e '\*\*\* Errors' -e 'Fatal' -e 'Could not parse' "$T/sany.txt"; exit 1; fi
echo setup ok
