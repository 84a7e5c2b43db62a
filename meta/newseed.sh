#!/bin/bash
# newseed.sh <id> <property> <needs> <what> <python edit code on stdin: variables: read(path), write(path, text), sub(path, old, new)>
id=$1; S=/verif/seeded/$id; mkdir -p $S
D=/tmp/seedwork/new.$$; mkdir -p /tmp/seedwork; git -C /repo worktree add -q --detach $D HEAD
cat > /tmp/seedwork/edit.$$.py <<'P'
import sys
def sub(path, old, new, count=1):
    s = open(path).read()
    assert s.count(old) >= 1, "not found: " + old
    assert count == 0 or s.count(old) == count, "count %d" % s.count(old)
    open(path, "w").write(s.replace(old, new))
P
cat >> /tmp/seedwork/edit.$$.py
(cd $D && python3 /tmp/seedwork/edit.$$.py && git diff > $S/patch.diff)
git -C /repo worktree remove --force $D
python3 - "$@" <<'P'
import json,sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open("/verif/seeded/%s/meta.json" % sys.argv[1], "w"), indent=1)
P
[ -s $S/patch.diff ] || echo "$id: EMPTY PATCH"
