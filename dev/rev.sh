#!/bin/bash
# rev.sh COMMIT PROP SEED COUNT [cap] : reverts a fix in the worktree, explores, restores
. /tmp/x/env.sh
cd /repo && git show $1 | git apply -R || exit 9
/opt/venv/bin/python /tmp/x/ex.py $2 $3 $4 $5 | grep -v fired
git -C /repo checkout -- . ; git -C /repo status --short
