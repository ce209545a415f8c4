#!/bin/bash
# usage: tools/mkbug.sh ID PROP "needs" "what it breaks" < demo.py
# Takes the uncommitted change of the scratch copy /tmp/bug/repo as the patch.
id=$1; d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id; mkdir -p $d
git -C /tmp/bug/repo diff > $d/patch.diff
cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
export PYTHONPATH=/repo/lib PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen QT_API=pyqt6
export PATH=/opt/venv/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
cd "$(mktemp -d)" || exit 2
trap 'rm -rf "$PWD"' EXIT
timeout 250 /opt/venv/bin/python "$here/demo.py"
X
/opt/venv/bin/python - "$id" "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /tmp/bug/repo checkout -q -- .
echo "$id: $(grep -c '^[+-][^+-]' $d/patch.diff) changed lines"
