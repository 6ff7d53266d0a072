#!/usr/bin/env python3
"""Check the demonstrations of /verif/seeded in scratch copies (development tool).

usage: demos.py [--diff FILE] [ID...]
Each demo must pass on the unchanged tree and fail with its patch. With --diff, it must also pass on the tree with
that behaviour-preserving change.
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEEDED = '/verif/seeded'
a = sys.argv[1:]
diff = None
if a[:1] == ['--diff']:
    diff, a = a[1], a[2:]

def run(tree, d):
    tmp = tempfile.mkdtemp()
    try:
        for n in os.listdir(d):
            if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
                shutil.copy(os.path.join(d, n), tmp)
        r = subprocess.run(['bash', tmp + '/demo.sh'], cwd=tree, capture_output=True, text=True, timeout=300)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(tmp)

def one(i):
    d = f'{SEEDED}/{i}'
    out = []
    for what in ['clean', 'patch'] + (['diff'] if diff else []):
        tree = tempfile.mkdtemp(prefix='demo_')
        try:
            subprocess.run(f'git -C /repo archive HEAD | tar -x -C {tree}', shell=True, check=True)
            p = {'patch': d + '/patch.diff', 'diff': diff}.get(what)
            if p:
                subprocess.run(['git', 'apply', p], cwd=tree, check=True)
            rc, text = run(tree, d)
            if (rc != 0) != (what == 'patch'):
                out.append(f'{i}: {what}: rc={rc}\n{text[-700:]}')
            if what == 'patch' and 'build failed' in text:
                out.append(f'{i}: does not build\n{text[-700:]}')
        except Exception as e:
            out.append(f'{i}: {what}: {e}')
        finally:
            shutil.rmtree(tree)
    return out

bad = 0
ids = a or sorted(os.listdir(SEEDED))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        for l in r:
            bad += 1
            print(l, flush=True)
print(f'{len(ids)} demos, {bad} problems')
