#!/usr/bin/env python3
"""gen.py BUGS.py [ID...]: makes /verif/seeded/<id> from the definitions bug(...) in BUGS.py."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', '..', 'seeded')
only = sys.argv[2:]
seen = set()

def bug(id, prop, edits, needs, breaks, demo):
    assert id not in seen, id
    seen.add(id)
    if only and id not in only: return
    d = os.path.join(out, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {t}', shell=True, check=True)
        subprocess.run(['git', 'init', '-q', t], check=True)
        subprocess.run(['git', '-C', t, 'add', '-A'], check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f'{id}: {f}: {s.count(old)} matches of {old!r}')
            open(p, 'w').write(s.replace(old, new))
        subprocess.run('gofmt -l ' + ' '.join(e[0] for e in edits), shell=True, cwd=t)
        diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        # imports are resolved in a copy of the repository
        if not demo.lstrip().startswith('package'):
            demo = 'package main\n\n' + demo
        z = os.path.join(t, 'zz_demo')
        os.makedirs(z)
        shutil.copy(os.path.join(here, 'lib.go'), z)
        open(os.path.join(z, 'main.go'), 'w').write(demo)
        subprocess.run(['goimports', '-w', 'main.go'], cwd=z, check=True)
        demo = open(os.path.join(z, 'main.go')).read()
    finally:
        shutil.rmtree(t)
    shutil.copy(os.path.join(here, 'lib.go'), d)
    shutil.copy(os.path.join(here, 'demo.sh'), d)
    open(os.path.join(d, 'main.go'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('made', id)

exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
