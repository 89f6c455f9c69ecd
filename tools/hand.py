#!/usr/bin/env python3
"""hand.py [-t SECS] [-s SEED] FILE.py [NAME..]: checks hand-written mutants.
FILE.py defines MUTANTS = [(name, property, [(file, old, new), ..]), ..]; scratch copies under /tmp/hx<k>, k = $HX."""
import os, subprocess, sys, time
H='/tmp/hx'+os.environ.get('HX','')
def sh(c, cwd=None, t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 99, 'timeout'
a=sys.argv[1:]; secs='25'; seed='1'
while a and a[0].startswith('-'):
    if a[0]=='-t': secs=a[1]
    if a[0]=='-s': seed=a[1]
    a=a[2:]
g={}; exec(open(a[0]).read(), g)
sh(f'mkdir -p {H}/harness {H}/mathmon; test -d {H}/repo || git clone -q /repo {H}/repo; cp -a /verif/harness/src /verif/harness/Cargo.* {H}/harness/; cp -a /verif/mathmon/src /verif/mathmon/Cargo.* {H}/mathmon/; cp /verif/known_findings.txt {H}/')
sh(f"sed -i 's#\"/repo/#\"{H}/repo/#' {H}/mathmon/Cargo.toml {H}/harness/Cargo.toml")
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', H+'/repo')
miss=[]
for name, prop, edits in g['MUTANTS']:
    if a[1:] and name not in a[1:]: continue
    sh('git checkout -q -- .', H+'/repo')
    bad=None
    for f,o,n in edits:
        p=f'{H}/repo/{f}'; s=open(p).read()
        if s.count(o)!=1: bad=f'{f}: {s.count(o)} matches of {o[:60]!r}'; break
        open(p,'w').write(s.replace(o,n))
    if bad: print(name,'NO MATCH',bad,flush=True); continue
    m=prop=='P26'
    rc,o=sh('CARGO_NET_OFFLINE=true '+('CARGO_TARGET_DIR=../harness/target ' if m else '')+'cargo build --offline --quiet', H+('/mathmon' if m else '/harness'))
    if rc: print(name,'NO BUILD',o[-900:],flush=True); continue
    t=time.time()
    rc,o=sh(f'rm -rf {H}/out {H}/work; mkdir -p {H}/out {H}/work; RTMON_SECS={secs} harness/target/debug/{"mathmon check" if m else "rtmon check --property "+prop} --tier quick --seed {seed} --out out --work work', H)
    v=[l for l in o.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')]
    print(f'{name:40} {prop} rc={rc} {time.time()-t:.0f}s  '+(' | '.join(x.strip() for x in v)[:240] if v else o.strip()[-150:].replace('\n',' | ')), flush=True)
    if rc!=1: miss.append(name)
sh('git checkout -q -- .', H+'/repo')
print('missed:', miss)
