#!/usr/bin/env python3
"""new.py SPEC: SPEC is a python file with id, prop, needs, breaks, edits=[(file, old, new)], demo. Writes /verif/seeded/<id>."""
import sys, os, json, subprocess, shutil, stat
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, old, new in s['edits']:
            p = f'/repo/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.rs', 'w').write(s['demo'].lstrip('\n'))
    shutil.copy('/verif/tools/seed/demo.sh', f'{d}/demo.sh')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print('wrote', s['id'])
