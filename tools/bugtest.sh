#!/bin/bash
# bugtest.sh ID [--tests] [check ids...]: try one planted bug on a scratch copy of /repo, bound over /repo in a private mount namespace.
id=$1; shift
tests=; [ "$1" = --tests ] && { tests=1; shift; }
d=/tmp/bugtest.$id
rm -rf "/tmp/bugtest.${id:?}"; cp -a /repo "$d" || exit 2
export id tests checks="$*"
s=/verif/seeded/$id
if [ -n "$tests" ] || [ -z "$checks" ]; then
(cd /repo && bash $s/demo.sh > $d.clean.log 2>&1); echo "$id clean demo: $? (want 0)"
fi
git -C $d checkout -q -- . && git -C $d apply $s/patch.diff || { echo "$id: patch does not apply"; exit 2; }
unshare -Urm bash -c '
mount --bind /tmp/bugtest.$id /repo || exit 2
cd /repo
if [ -n "$tests" ] || [ -z "$checks" ]; then bash /verif/seeded/$id/demo.sh > /tmp/bugtest.$id.bug.log 2>&1; echo "$id bug demo: $? (want nonzero)"; tail -n 3 /tmp/bugtest.$id.bug.log; fi
if [ -n "$tests" ]; then bash /opt/vp/test.sh /tmp/bugtest.$id.json > /tmp/bugtest.$id.tests.log 2>&1; python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/bugtest.$id.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("stable","passed","tests"):
            if k in x: return x[k]
    return x
print("$id tests:", sorted(set(names(b))-set(r["passed"]))[:5] or "all stable tests pass")
P
fi
cd /verif
for c in $checks; do VERIF_SEED=1 timeout 900 /opt/venv/bin/python check.py ${c%%:*} --tier quick 2>/dev/null | grep -E "VIOLATION|held" | cut -c1-300 | sed "s/^/$id $c: /"; echo "$id $c rc ${PIPESTATUS[0]}"; done
'
rm -rf "/tmp/bugtest.${id:?}"
