"""python3 tools/plant.py SPEC.py ...: makes /verif/seeded/<id>/ from specs (dicts with id, property, edits [(file, old, new)], needs, breaks, demo)."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = tempfile.mkdtemp()
    wt = os.path.join(d, 'w')
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    out = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d)
cp "$HERE/demo.py" "$T/" && cd "$T" || exit 2
timeout 250 /opt/venv/bin/python -W ignore demo.py
R=$?
cd / && rm -rf "$T"
exit $R
''')
    print('planted', b['id'])
