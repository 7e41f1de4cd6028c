#!/bin/bash
# seed.sh ID : the diff of /tmp/w (against HEAD) becomes seeded/ID/patch.diff; demo must pass on /repo and fail on /tmp/w
id=$1; d=/verif/seeded/$id; mkdir -p $d
[ -n "$(git -C /tmp/w diff)" ] && git -C /tmp/w diff > $d/patch.diff
cp /verif/tools/seedlib.py $d/lib.py; cp /verif/tools/demo_head.sh $d/demo.sh
(cd /repo && bash $d/demo.sh >/tmp/seed.ok 2>&1; echo "unpatched rc $?"; tail -2 /tmp/seed.ok)
(cd /tmp/w && bash $d/demo.sh >/tmp/seed.bad 2>&1; echo "patched rc $?"; tail -2 /tmp/seed.bad)
git -C /repo apply --check $d/patch.diff && echo applies
find /verif/seeded -name __pycache__ -exec rm -rf {} +
