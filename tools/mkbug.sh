#!/bin/bash
# mkbug.sh ID < edit.py : makes /verif/seeded/ID/patch.diff from an edit script run in a scratch worktree, then runs
# the demo (seeded/ID/demo.sh) against both trees
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
W=$(mktemp -d /tmp/bug.XXXX)
git -C /repo worktree add -q --detach $W/r HEAD
cp -a /repo/openamundsen/_version.py $W/r/openamundsen/ 2>/dev/null
(cd $W/r && python3 -) || echo EDIT FAILED
git -C $W/r diff > $D/patch.diff
echo "patch lines: $(grep -c '^[+-][^+-]' $D/patch.diff)"
cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$D/demo.py"
X
chmod +x $D/demo.sh
(cd /repo && bash $D/demo.sh >/dev/null 2>$W/e1); a=$?
(cd $W/r && bash $D/demo.sh >/dev/null 2>$W/e2); b=$?
echo "$ID demo unchanged=$a patched=$b"; [ $a = 0 ] || tail -5 $W/e1; tail -2 $W/e2
git -C /repo worktree remove --force $W/r; rm -rf "$W"
