#!/usr/bin/env python3
"""seed.py [ID..]: writes /verif/seeded/ID from the table in bugs*.py and tries it both ways in a scratch copy.
Needs /tmp/sk/repo (a copy of /repo) and /tmp/sk/d (the demo crate on it)."""
import glob, importlib.util, json, os, shutil, subprocess, sys
S = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
R = '/tmp/sk/repo'
D = '/tmp/sk/d'
KIT = ['vm', 'codec', 'num', 'world', 'mocks', 'state']
HEAD = '''#![allow(dead_code, unused)]
mod vm; mod codec; mod num; mod world; mod mocks; mod state; #[macro_use] mod api;
use api::*; use codec::*; use num::*; use state::*; use vm::*; use world::*;

'''
def sh(c, cwd=None, t=600):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

bugs = []
for f in sorted(glob.glob(S + '/bugs*.py')):
    spec = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs += m.BUGS
only = sys.argv[1:]

def setup():
    if not os.path.isdir(R):
        os.makedirs('/tmp/sk', exist_ok=True)
        sh(f'cp -a /repo {R}')
    os.makedirs(D + '/src', exist_ok=True)
    for k in KIT: shutil.copy(f'/verif/harness/src/{k}.rs', D + '/src/')
    shutil.copy(S + '/api.rs', D + '/src/'); shutil.copy(S + '/Cargo.lock', D)
    t = open(S + '/Cargo.toml.in').read().replace('@REPO@', R)
    open(D + '/Cargo.toml', 'w').write(t)

def demo():
    rc, o = sh('CARGO_NET_OFFLINE=true cargo build --offline --quiet 2>&1 | grep -A12 "^error" | head -60', D)
    if 'error' in o: return 'BUILD', o
    return sh('timeout 120 target/debug/demo', D)

setup()
for b in bugs:
    if only and b['id'] not in only: continue
    i = b['id']
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', R)
    kit = KIT + (['calc'] if b['id'].startswith('p26-') else [])
    head = HEAD + ('mod calc;\n' if 'calc' in kit else '')
    if 'calc' in kit: shutil.copy('/verif/mathmon/src/calc.rs', D + '/src/')
    open(D + '/src/main.rs', 'w').write(head + b['main'].strip() + '\n')
    r0, o0 = demo()
    ok = r0 == 0
    for (f, old, new) in b['edits']:
        p = f'{R}/{f}'; s = open(p).read()
        n = s.count(old)
        if n != 1: print(i, 'EDIT', f, 'matches', n); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', R)
    r1, o1 = demo()
    print(f'{i} [{b["property"]}] clean={r0} patched={r1}', flush=True)
    if r0 != 0: print('   CLEAN:', o0[-1500:])
    if r1 in (0, 'BUILD', 99): print('   PATCHED:', o1[-1500:]); ok = False
    else: print('   ', o1.strip()[-300:].replace('\n', ' | '))
    if ok:
        T = f'{OUT}/{i}'
        if os.path.isdir(T): shutil.rmtree(T)
        os.makedirs(T + '/kit')
        for k in kit: shutil.copy(f'/verif/mathmon/src/{k}.rs' if k == 'calc' else f'/verif/harness/src/{k}.rs', T + '/kit/')
        for k in ['api.rs', 'Cargo.toml.in', 'Cargo.lock']: shutil.copy(f'{S}/{k}', T + '/kit/')
        open(T + '/main.rs', 'w').write(head + b['main'].strip() + '\n')
        open(T + '/patch.diff', 'w').write(diff)
        open(T + '/demo.sh', 'w').write(open(S + '/demo.sh.in').read().replace('@ID@', i))
        os.chmod(T + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(T + '/meta.json', 'w'), indent=1)
sh('git checkout -q -- .', R)
