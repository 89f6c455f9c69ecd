#!/usr/bin/env python3
"""try.py [-t SECS] [ID..]: runs each planted bug's own property check against it in scratch copies under /tmp/hk."""
import glob, json, os, re, subprocess, sys, time
H='/tmp/hk'
def sh(c, cwd=None, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 99, 'timeout'
a=sys.argv[1:]; secs='25'; seed='1'; prop=None
while a and a[0].startswith('-'):
    if a[0]=='-t': secs=a[1]
    if a[0]=='-s': seed=a[1]
    if a[0]=='-p': prop=a[1]
    a=a[2:]
sh(f'mkdir -p {H}; test -d {H}/repo || cp -a /repo {H}/repo; mkdir -p {H}/harness; rsync -a --exclude target /verif/harness/ {H}/harness/ 2>/dev/null || cp -a /verif/harness/src /verif/harness/Cargo.* {H}/harness/; cp /verif/known_findings.txt {H}/')
sh(f'mkdir -p {H}/mathmon; cp -a /verif/mathmon/src /verif/mathmon/Cargo.* {H}/mathmon/')
sh(f"sed -i 's#\"/repo/#\"{H}/repo/#' {H}/mathmon/Cargo.toml")
sh(f"sed -i 's#\"/repo/#\"{H}/repo/#' {H}/harness/Cargo.toml")
ids=a or sorted(os.path.basename(x) for x in glob.glob('/verif/seeded/*'))
miss=[]
for i in ids:
    d='/verif/seeded/'+i
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', H+'/repo')
    rc,o=sh(f'git apply {d}/patch.diff', H+'/repo')
    if rc: print(i,'DOES NOT APPLY',o[:200]); continue
    p=prop or json.load(open(d+'/meta.json'))['property']
    m=p=='P26'
    rc,o=sh('CARGO_NET_OFFLINE=true '+('CARGO_TARGET_DIR=../harness/target ' if m else '')+'cargo build --offline --quiet', H+('/mathmon' if m else '/harness'))
    if rc: print(i,'NO BUILD',o[-600:]); continue
    t=time.time()
    rc,o=sh(f'rm -rf {H}/out {H}/work; mkdir -p {H}/out {H}/work; RTMON_SECS={secs} harness/target/debug/{"mathmon check" if m else "rtmon check --property "+p} --tier quick --seed {seed} --out out --work work', H)
    v=[l for l in o.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')]
    print(f'{i:40} {p} rc={rc} {time.time()-t:.0f}s  '+(' | '.join(x.strip() for x in v)[:260] if v else o.strip()[-200:].replace('\n',' | ')), flush=True)
    if rc!=1: miss.append(i)
sh('git checkout -q -- .', H+'/repo')
print('missed:', miss)
