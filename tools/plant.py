# Writes planted bugs (seed(...)) from edits of a clone of /repo; no check reads this.
import subprocess, os, json, sys
R='/tmp/seed/repo'; S='/verif/seeded'
HEAD='''#!/bin/bash
# Run in /repo after the build.
typical=$PWD/target/debug/typical
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export NO_COLOR=true
'''
RUN='''rustc --edition 2021 -A warnings -o "$d/demo" "$d/demo.rs" && timeout 60 "$d/demo"
'''
TSC='/opt/veriftools/node/node_modules/.bin'
def seed(id, prop, needs, breaks, edits, demo):
    subprocess.run('git checkout -q -- .', shell=True, cwd=R, check=True)
    for f, old, new, *n in edits:
        p=f'{R}/src/{f}'; t=open(p).read(); n=n[0] if n else 1
        assert t.count(old)==n, (id, f, t.count(old), old)
        open(p,'w').write(t.replace(old,new))
    d=f'{S}/{id}'; os.makedirs(d, exist_ok=True)
    diff=subprocess.run('git diff', shell=True, cwd=R, check=True, capture_output=True, text=True).stdout
    open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo.sh','w').write(HEAD+demo)
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(f'{d}/meta.json','w'), indent=1)
    subprocess.run('git checkout -q -- .', shell=True, cwd=R, check=True)
