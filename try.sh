#!/bin/bash
# try.sh <seeded id> [check]: applies a planted bug to /repo, runs the check of its property and undoes it
D=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply "$D/patch.diff" || exit 2
/verif/check.sh "$P" "${@:3}" 2>&1 | tail -8; 
git -C /repo checkout -- .
