#!/bin/sh
# usage: try.sh ID [PROP...]: apply a planted bug to a scratch copy and run checks there
d=/verif/seeded/$1; shift
w=/tmp/tryseed; rm -rf /tmp/tryseed; cp -r /repo $w && git -C $w apply $d/patch.diff || exit 2
for p in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do /verif/checker/run.sh -repo $w -all -only $p -clip 300; done
rm -rf /tmp/tryseed
