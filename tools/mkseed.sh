#!/bin/bash
# mkseed.sh ID PROPERTY: the working-tree change of /repo becomes seeded/ID/patch.diff (and is undone)
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
[ -e $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYTHONPATH=/repo
/opt/venv/bin/python "$here/demo.py" && /opt/venv-pypy/bin/python "$here/demo.py"
D
