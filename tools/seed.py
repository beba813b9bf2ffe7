#!/usr/bin/env python3
"""Plants bugs: writes /verif/seeded/<id>/ from the list in seeds.py after confirming each in a scratch copy.
usage: seed.py [id...]   (needs /tmp/vh: the harness binary)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)
apks = tempfile.mkdtemp(prefix='apks.')
subprocess.run(['/tmp/vh', 'demos', apks], check=True)
ok = True
for s in SEEDS:
    if sys.argv[1:] and s['id'] not in sys.argv[1:]:
        continue
    w = tempfile.mkdtemp(prefix='seed.')
    wt = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if 'demo' in s:  # a Go test of its own: (package directory, source)
        pkg, src = s['demo']
        open(d + '/demo_test.go.txt', 'w').write(src)
        sh = open(HERE + '/demo/demo.sh').read().replace('%s/zz_demo_test.go', '%s/' + pkg + '/zz_demo_test.go').replace("' .\n", "' ./" + pkg + "\n")
        if os.path.isdir(os.path.join(apks, s['id'])):
            for f in os.listdir(os.path.join(apks, s['id'])):
                if f != 'cases.json': shutil.copy(os.path.join(apks, s['id'], f), d)
        sh = sh.replace('# Runs the APKs beside this script through the public API; fails if an outcome differs from the correct one.', '# Runs the test beside this script.')
    else:
        shutil.copy(HERE + '/demo/demo_test.go', d + '/demo_test.go.txt')
        sh = open(HERE + '/demo/demo.sh').read()
        for f in os.listdir(os.path.join(apks, s['id'])):
            shutil.copy(os.path.join(apks, s['id'], f), d)
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    print('==', s['id'])
    if 'demo' not in s:
        r = run([d + '/demo.sh'], cwd=wt, env=dict(os.environ, DEMO_RECORD='1'))
        for c in json.load(open(d + '/cases.json')):
            print('   ', c['Apk'], c['Call'], c['Min'], c['Max'], c['Want'])
    r0 = run([d + '/demo.sh'], cwd=wt)
    for f, old, new in s['edits']:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            print('  BAD EDIT', f, t.count(old), repr(old)); ok = False
        open(p, 'w').write(t.replace(old, new))
    diff = run(['git', 'diff'], cwd=wt).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    fmtd = run('gofmt -d ' + ' '.join(e[0] for e in s['edits']) + ' | head -0', cwd=wt, shell=True).stdout
    b = run(['go', 'vet', './...'], cwd=wt, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off'))
    t = run(['go', 'test', './...'], cwd=wt, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off'))
    r1 = run([d + '/demo.sh'], cwd=wt)
    print('  demo unpatched rc', r0.returncode, 'patched rc', r1.returncode, 'tests rc', t.returncode, 'vet rc', b.returncode, fmtd)
    if r0.returncode: print(r0.stdout, r0.stderr)
    if t.returncode: print('\n'.join(l for l in t.stdout.splitlines() if 'FAIL' in l)[:1500])
    print('\n'.join(l for l in r1.stdout.splitlines() if 'got' in l)[:1500])
    if r0.returncode or not r1.returncode or t.returncode:
        ok = False
        print('  NOT CONFIRMED')
    shutil.rmtree(w)
shutil.rmtree(apks)
sys.exit(0 if ok else 1)
