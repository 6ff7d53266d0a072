#!/usr/bin/env python3
"""Author planted bugs (development tool; no check reads /verif/seeded).

usage: mkseed.py seeds/FILE.py [ID...]   build, validate and run the checks on the seeds of FILE
       mkseed.py --recheck [ID...]       rerun the property's check against existing /verif/seeded
Each entry of SEEDS in FILE: id, property, pkg, edits [(file, old, new)], demo (Go test source) or
files {name: text} with demo_sh, needs, breaks.
"""
import json, os, subprocess, sys, runpy, re, shutil, time
REPO, VERIF = '/repo', '/verif'
BASE = subprocess.check_output(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
SEEDED = VERIF + '/seeded'
LOG = '/tmp/seedlog.txt'

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkgslash)szz_seed_demo_test.go" "$here/demo_test.go.txt" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" %(flags)s-vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./%(pkg)s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def git(*a):
    return subprocess.run(['git', '-C', REPO, *a], capture_output=True, text=True, check=True).stdout

def clean():
    git('checkout', '--', '.')
    assert git('status', '--porcelain') == '', 'repo not clean'

def blame_ok(patch):
    """every removed line must come from the base commit; at least one removed line."""
    f, n, removed = None, 0, 0
    for l in patch.splitlines():
        if l.startswith('--- '):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            removed += 1
            b = git('blame', '-l', '-s', '-L', f'{n},{n}', 'HEAD', '--', f).split()[0].lstrip('^')
            if not BASE.startswith(b[:38]):
                return f'{f}:{n} is not an original line'
            n += 1
        elif l.startswith('+'):
            pass
        elif l.startswith(' '):
            n += 1
    return None if removed else 'no original line changed'

def build_test():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return 'build failed: ' + (b.stdout + b.stderr)[-1500:]
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/seed_out.json'))
    stable = base.get('stable') or base.get('tests') or base.get('passed') or base
    if isinstance(stable, dict):
        stable = list(stable)
    passed = set(out['passed'] if isinstance(out['passed'], list) else out['passed'].keys())
    missing = [t for t in stable if t not in passed]
    return f'{len(missing)} stable tests fail: {missing[:4]}' if missing else None

def demo(d):
    # lay it elsewhere, as the final check does
    tmp = subprocess.check_output(['mktemp', '-d'], text=True).strip()
    for n in os.listdir(d):
        if n.endswith(('.diff', '.patch')) or n == 'meta.json':
            continue
        shutil.copy(os.path.join(d, n), tmp)
    try:
        r = subprocess.run(['bash', tmp + '/demo.sh'], cwd=REPO, capture_output=True, text=True, timeout=300)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(tmp)

def check(prop, tier='quick'):
    t = time.time()
    r = sh(f'cd {VERIF} && VERIF_SEED=1 VERIF_TIER={tier} ./run.sh {prop} {tier}')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, time.time() - t, r.stdout[-600:] + r.stderr[-600:]

def say(*a):
    print(*a, flush=True)
    with open(LOG, 'a') as f:
        print(*a, file=f)

def one(s, fast=False):
    d = f'{SEEDED}/{s["id"]}'
    clean()
    try:
        for f, old, new in s['edits']:
            p = f'{REPO}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                say(s['id'], 'BAD edit matches', t.count(old), repr(old[:60])); return
            open(p, 'w').write(t.replace(old, new))
        g = sh(f'. {VERIF}/env.sh; gofmt -l ' + ' '.join(f'{REPO}/{f}' for f, _, _ in s['edits']), executable='/bin/bash')
        if g.stdout.strip() or g.stderr.strip():
            say(s['id'], 'gofmt:', g.stdout, g.stderr[:500])
        patch = git('diff')
        e = blame_ok(patch)
        if e:
            say(s['id'], 'BAD', e); return
        e = build_test()
        if e:
            say(s['id'], 'BAD', e); return
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        if 'demo' in s:
            pkg = s.get('pkg', '.')
            open(d + '/demo_test.go.txt', 'w').write(s['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO % dict(
                pkg='' if pkg == '.' else pkg, pkgslash='' if pkg == '.' else pkg + '/', flags=s.get('flags', '')))
            if '@WANT@' in s['demo']:
                # an expected fingerprint: taken from the unchanged tree
                clean()
                rc, out = demo(d)
                w = re.search(r'GOT=(\w+)', out)
                if not w:
                    say(s['id'], 'BAD no GOT=', out[-800:]); return
                t = open(d + '/demo_test.go.txt').read().replace('@WANT@', w.group(1))
                open(d + '/demo_test.go.txt', 'w').write(t)
                git('apply', d + '/patch.diff')
        for n, text in s.get('files', {}).items():
            open(f'{d}/{n}', 'w').write(text.lstrip('\n'))
        if any('@WANT@' in text for text in s.get('files', {}).values()):
            clean()
            rc, out = demo(d)
            w = re.search(r'GOT=(\w+)', out)
            if not w:
                say(s['id'], 'BAD no GOT=', out[-800:]); return
            for n, text in s['files'].items():
                open(f'{d}/{n}', 'w').write(text.lstrip('\n').replace('@WANT@', w.group(1)))
            git('apply', d + '/patch.diff')
        rc, out = demo(d)
        if rc == 0:
            say(s['id'], 'BAD demo passes with the patch'); return
        if 'build failed' in out or 'setup failed' in out or 'cannot find' in out:
            say(s['id'], 'BAD demo does not build', out[-1500:]); return
        fail = out[-300:]
        crc, v, t, tail = check(s['property'])
        clean()
        rc, out = demo(d)
        if rc != 0:
            say(s['id'], 'BAD demo fails without the patch', out[-1500:]); return
        say(s['id'], s['property'], 'CAUGHT' if crc == 1 and v else f'MISSED rc={crc}', f'{t:.0f}s', (v or [''])[0])
        if not (crc == 1 and v):
            say('   demo said:', fail.replace('\n', '\n   '))
            say('   check said:', tail.replace('\n', '\n   '))
    finally:
        clean()

def recheck(ids):
    for i in sorted(os.listdir(SEEDED)):
        if ids and i not in ids:
            continue
        d = f'{SEEDED}/{i}'
        m = json.load(open(d + '/meta.json'))
        clean()
        try:
            git('apply', d + '/patch.diff')
            crc, v, t, tail = check(m['property'])
        finally:
            clean()
        say(i, m['property'], 'CAUGHT' if crc == 1 and v else f'MISSED rc={crc}', f'{t:.0f}s', (v or [''])[0])

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--recheck':
        recheck(a[1:])
    else:
        for s in runpy.run_path(a[0])['SEEDS']:
            if len(a) == 1 or s['id'] in a[1:]:
                one(s)
