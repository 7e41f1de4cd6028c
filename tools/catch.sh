#!/bin/bash
# catch.sh ID PROP [args] : run a check against a planted change
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && ./run.sh "$@" 2>&1 | tail -4
git -C /repo checkout -- .
