"""mkseed.py: define a planted bug (file edits + demo) and write /verif/seeded/<id>.  Used by hand while building the machinery."""
import os, subprocess, json
REPO = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w %(inc)s-Iinclude -Isrc -DDOTTORRENT_USE_OPENSSL -DFMT_HEADER_ONLY "$d/demo.cpp" -o "$t/demo" -lcrypto -lpthread || exit 2
timeout 120 "$t/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, files=None, inc=''):
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip(), 'repo dirty'
    try:
        for f, old, new in edits:
            p = f'{REPO}/{f}'; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % {'inc': inc}); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo.lstrip())
    for n, t in (files or {}).items(): os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True); open(f'{d}/{n}', 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
