#!/bin/bash
# tryseed.sh ID [PROP]: run the property's check against a scratch tree (/tmp/wt, at /tmp/w's HEAD) with the planted bug applied, from a separate build directory
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
[ -d /tmp/wt ] || git clone -q /tmp/w /tmp/wt
cd /tmp/wt && git fetch -q /tmp/w HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/$1/patch.diff || exit 9
cd /verif && SIM_REPO=/tmp/wt SIM_BUILD=seedbuild SIM_OUT=/tmp/sim_out python3 check.py ${2:-$P} | cut -c1-${C:-900}; git -C /tmp/wt checkout -q .
