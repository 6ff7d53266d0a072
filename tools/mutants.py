#!/usr/bin/env python3
"""Mutation runs in scratch copies (development tool).

usage: mutants.py OUT.jsonl [--every N] [--from K] FILE...     (FILE relative to /repo)
For every mutant that builds and passes the existing tests, runs the checks for its file one after another until one
reports a violation; what survives all of them is printed (and recorded with "checks": null).
"""
import json, os, shutil, subprocess, sys, tempfile, threading, queue
REPO, VERIF = '/repo', '/verif'
WORKERS, CPUS = 4, 2
ROOT = ['C03', 'C02', 'C07', 'C13', 'C01', 'C05', 'C06', 'C12', 'C14', 'C10', 'C09', 'C04', 'C15', 'C08', 'C35', 'C36']
STD = ['C16', 'C17', 'C18', 'C19', 'C22', 'C23', 'C24', 'C25', 'C37', 'C26', 'C20', 'C27', 'C34', 'C35', 'C11']
def checks(f):
    c = order(f)
    return c[:1] + ['tests'] + c[1:]
def order(f):
    if f.startswith('writer/standard/shapes'): return ['C20', 'C21', 'C19', 'C26']
    if f.startswith('writer/standard/imgkit'): return ['C33', 'C25', 'C35']
    if f.startswith('writer/standard'): return [c for c in STD if c != 'C11']
    if f.startswith('writer/compressed'): return ['C28', 'C34', 'C27', 'C26', 'C35']
    if f.startswith('writer/file'): return ['C29', 'C34', 'C26', 'C35']
    if f.startswith('writer/terminal'): return ['C30', 'C31']
    if f.startswith('cmd/qrcode'): return ['C31']
    if f.startswith('cmd/wasm'): return ['C32']
    return ROOT

ENV = dict(os.environ)
for l in ['GOTOOLCHAIN=local', 'GOPROXY=off', 'HOME=/root', 'GOPATH=/root/go', 'GOMODCACHE=/root/go/pkg/mod', 'GOCACHE=/root/.cache/go-build']:
    k, v = l.split('=', 1); ENV[k] = v
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV['PATH']

def make(i):
    d = f'/tmp/mut{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/repo')
    subprocess.run(f'git -C {REPO} archive HEAD | tar -x -C {d}/repo', shell=True, check=True)
    for p in ['testdata', 'writer/standard/testdata', 'writer/terminal/testdata']:
        os.makedirs(f'{d}/repo/{p}', exist_ok=True)
    shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replay', 'evidence'))
    subprocess.run(f"sed -i 's|=> /repo|=> {d}/repo|' {d}/verif/harness/go.mod; sed -i 's|/repo/|{d}/repo/|g' {d}/verif/run.sh;"
                   f" sed -i 's/4\\*quick/quick/' {d}/verif/harness/core/core.go", shell=True, check=True)
    return d

def passed(d):
    """names of the passing tests, None if the build fails"""
    repo = d + '/repo'
    env = dict(ENV, GOFLAGS='-buildvcs=false')
    pk = './... ./cmd/qrcode/... ./writer/compressed/... ./writer/file/... ./writer/standard/... ./writer/terminal/... ./example/...'
    b = subprocess.run(f'go build -o /dev/null {pk} && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm/...', shell=True, cwd=repo, env=env, capture_output=True)
    if b.returncode: return None
    try:
        out = subprocess.run(f'go test -json -vet=off -count=1 -timeout 60s {pk}; GOOS=js GOARCH=wasm go test -json -vet=off -count=1 -timeout 60s -exec "bash $(go env GOROOT)/lib/wasm/go_js_wasm_exec" ./cmd/wasm/...',
                             shell=True, cwd=repo, env=env, capture_output=True, text=True, timeout=200).stdout
    except subprocess.TimeoutExpired:
        return set()
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add((e['Package'], e['Test']))
    return ok

def main():
    a = sys.argv[1:]
    out = open(a.pop(0), 'a')
    every, start = 1, 0
    while a and a[0].startswith('--'):
        o, v = a.pop(0), int(a.pop(0))
        if o == '--every': every = v
        else: start = v
    subprocess.run(['go', 'build', '-o', '/tmp/mutate', VERIF + '/tools/mutate/main.go'], env=ENV, check=True)
    muts = []
    for f in a:
        t = subprocess.run(['/tmp/mutate', f], cwd=REPO, capture_output=True, text=True, check=True).stdout
        muts += [json.loads(l) for l in t.splitlines()]
    muts = muts[start::every]
    print(len(muts), 'mutants', flush=True)
    q = queue.Queue()
    for m in muts: q.put(m)
    lock = threading.Lock()
    stats = {}
    def work(i):
        d = make(i)
        base = passed(d)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f"{d}/repo/{m['file']}"
            src = open(p, 'rb').read()
            open(p, 'wb').write(src[:m['start']] + m['new'].encode() + src[m['end']:])
            res = 'build'
            try:
                res = None
                for c in checks(m['file']):
                    if c == 'tests':
                        ok = passed(d)
                        if ok is None or base - ok:
                            res = 'tests' if ok is not None else 'build'; break
                        continue
                    if True:
                        if True:
                            r = subprocess.run(['taskset', '-c', f'{CPUS*i}-{CPUS*i+CPUS-1}', './run.sh', c, 'quick'], cwd=d + '/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1'))
                            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                                res = c; break
                            if 'failed' in r.stderr and r.returncode == 2 and 'build' in r.stderr:
                                res = 'build'; break
                            if r.returncode not in (0, 1):
                                m.setdefault('odd', []).append([c, r.returncode, (r.stdout + r.stderr)[-300:]])
            finally:
                open(p, 'wb').write(src)
            with lock:
                stats[res] = stats.get(res, 0) + 1
                m['checks'] = res
                out.write(json.dumps(m) + '\n'); out.flush()
                if res is None:
                    print(f"SURVIVED {m['file']}:{m['line']} {m['what'][:100]} -> {m['new'][:60]!r} {m.get('odd', '')}", flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(WORKERS)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(stats)
main()
