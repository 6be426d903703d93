#!/bin/bash
# rewrites baseline/PNN.json (the contracts fully discharged on the unchanged tree); run by hand after changing a property
cd "$(dirname "$0")/.."
for p in "$@"; do VERIF_BASELINE=1 python3 check.py $p --tier quick | grep -v "^ok" | tail -4; done
