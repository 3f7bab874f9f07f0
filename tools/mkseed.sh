#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks": takes the uncommitted change of the scratch clone /tmp/w as a planted bug
D=/verif/seeded/$1; mkdir -p $D; git -C /tmp/w diff > $D/patch.diff; git -C /tmp/w checkout -q .
[ -f $D/demo.sh ] || cp /verif/tools/seedlib/demo.sh /verif/tools/seedlib/h.h $D/
P="$2" N="$3" B="$4" python3 - > $D/meta.json <<'P'
import json,os
print(json.dumps(dict(property=os.environ["P"],needs=os.environ["N"],what_it_breaks=os.environ["B"]),indent=1))
P
