"""plant.py SPEC.py: build seeded/<id>/ folders from a spec (a list BUGS of dicts
with id, property, file, edits [(old, new)], demo (python source), needs, breaks)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if only and b['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='plantw-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for file, old, new, *nth in b['edits']:
            p = os.path.join(w, 'r/src/toron', file)
            s = open(p).read()
            assert nth or s.count(old) == 1, (b['id'], file, s.count(old), old)
            parts = s.split(old)
            n = nth[0] if nth else 1
            open(p, 'w').write(old.join(parts[:n]) + new + old.join(parts[n:]))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exit 0 when the property holds, nonzero when it is broken. Run from the repository root.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d); trap 'rm -r "$scratch"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$scratch"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
cd "$scratch" && exec_py() { "$py" "$here/demo.py" "$scratch"; } && exec_py
''')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    base = ''.join(subprocess.run(['git', '-C', '/repo', 'show', 'b60f8f4:src/toron/' + f], capture_output=True,
                                  text=True).stdout for f in {e[0] for e in b['edits']}).splitlines()
    own = [l for l in removed if l not in base]
    print(b['id'], f'(removes {len(removed)} lines, {len(own)} of them not in the base commit)')
