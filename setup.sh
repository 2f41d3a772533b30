#!/bin/sh
# Checks that everything needed by the checks is present; each check builds what it runs itself.
set -e
cd "$(dirname "$0")"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
go version
python3 -c 'import json; json.load(open("MANIFEST.json"))'
test -d gopath/src/pgregory.net/rapid
