#!/bin/bash
# trybug.sh ID [PROP] : apply a planted bug to /repo, run the check of its property, undo
ID=$1; D=/verif/seeded/$ID
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 3
(cd /verif && bash check.sh $P quick 2>&1 | cut -c1-260 | tail -${N:-6}); 
git -C /repo checkout -- .
