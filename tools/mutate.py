#!/usr/bin/env python3
"""mutate.py [-j N] [-t SECS] [-n MAX] [-f SUBSTRING] [-o OUT] [--seed S]: small systematic changes to the contracts, each built
and surveyed (`rtmon survey`) in scratch copies under /tmp/mut; survivors show what the workload or the oracles miss."""
import argparse, glob, json, os, random, re, subprocess, sys, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=8); ap.add_argument('-t', type=int, default=25); ap.add_argument('-n', type=int, default=10**9)
ap.add_argument('-f', default=''); ap.add_argument('-o', default='/tmp/mut/results.jsonl'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--list', action='store_true'); ap.add_argument('--again', action='store_true')
A = ap.parse_args()
H = '/tmp/mut'
FILES = []
for d in ['controller/src', 'liquidity_layer/src', 'price_aggregator/src', 'common/math/src', 'common/rates/src']:
    FILES += sorted(glob.glob(f'/repo/{d}/**/*.rs', recursive=True))
FILES = [f for f in FILES if 'events' not in f and 'proxy' not in f and 'errors' not in f]

SWAPS = [
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
    (r' \* ', [' / ']), (r' / ', [' * ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\bsupply_index_ray\b', ['borrow_index_ray']), (r'\bborrow_index_ray\b', ['supply_index_ray']),
    (r'\bsupplied_ray\b', ['borrowed_ray']), (r'\bborrowed_ray\b', ['supplied_ray']), (r'\bsupplied\b', ['borrowed']), (r'\bborrowed\b', ['supplied']),
    (r'\bloan_to_value\b', ['liquidation_threshold']), (r'\bliquidation_threshold\b', ['loan_to_value']),
    (r'\bliquidation_bonus\b', ['liquidation_fees']), (r'AccountPositionType::Deposit\b', ['AccountPositionType::Borrow']),
    (r'AccountPositionType::Borrow\b', ['AccountPositionType::Deposit']), (r'if !', ['if ']), (r'\bif self\.', ['if !self.']),
    (r'calculate_scaled_supply\(', ['calculate_scaled_borrow(']), (r'calculate_scaled_borrow\(', ['calculate_scaled_supply(']),
    (r'calculate_original_supply\(', ['calculate_original_borrow(']), (r'calculate_original_borrow\(', ['calculate_original_supply(']),
    (r'calculate_original_supply_ray\(', ['calculate_original_borrow_ray(']), (r'calculate_original_borrow_ray\(', ['calculate_original_supply_ray(']),
    (r'\bself\.bps\(\)', ['self.wad()']), (r'WAD_PRECISION', ['RAY_PRECISION']), (r'\bfirst_', ['last_']), (r'upper', ['lower']),
    (r'_lower\b', ['_upper']), (r'\bself\.ray\(\)', ['self.ray_zero()']), (r'\bself\.ray_zero\(\)', ['self.ray()']), (r'wad_zero\(\)', ['wad()']),
    (r'&caller\b', ['&self.blockchain().get_owner_address()']), (r'\bbase\b', ['quote']), (r'reserve_0', ['reserve_1']),
    (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']), (r'is_empty\(\)', ['len() == 1']), (r'clone\(\)\.max', ['clone().min']),
]
def code_lines(t):
    out = []
    intest = False; inc = False
    for i, l in enumerate(t.split('\n')):
        if '#[cfg(test)]' in l: intest = True
        s = l.strip()
        if s.startswith('/*'): inc = True
        if inc:
            out.append(False)
            if '*/' in s: inc = False
            continue
        out.append(not (intest or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('*') or not s))
    return out
SKIP = re.compile(r'emit_|_event\(|sc_print|storage_mapper|fn |^\s*\+ |->|pub trait|impl<|#\[')
def muts():
    r = []
    for f in FILES:
        t = open(f).read(); L = t.split('\n'); ok = code_lines(t)
        for i, l in enumerate(L):
            if not ok[i] or SKIP.search(l): continue
            code = l.split('//')[0]
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        r.append((f, i, 1, [code[:m.start()] + rep + code[m.end():]]))
            m = re.search(r'(?<![\w.])(\d{1,5})(?:u32|u64|usize)?(?![\w.])', code)
            if m and 'const' not in code and int(m.group(1)) < 10000:
                n = int(m.group(1)); r.append((f, i, 1, [code[:m.start(1)] + str(n + 1) + code[m.end(1):]]))
            # statement removal
            s = l.strip()
            if re.match(r'(self\.|require!|cache\.|\w+(\.\w+)*\s*[-+]?= |\w+\.(push|remove|insert|set|update|clear)|\*\w+ )', s) and not s.startswith('let'):
                j = i; depth = 0; txt = ''
                while j < len(L) and j < i + 14:
                    c = L[j].split('//')[0]
                    depth += sum(c.count(x) for x in "([{") - sum(c.count(x) for x in ")]}")
                    txt += c
                    if depth == 0 and c.rstrip().endswith(';'): break
                    if depth < 0: j = None; break
                    j += 1
                else: j = None
                if j is not None and not SKIP.search(txt): r.append((f, i, j - i + 1, ['']))
            if re.match(r'return;', s): r.append((f, i, 1, ['']))
    return r
M = muts()
random.Random(A.seed).shuffle(M)
M = [m for m in M if A.f in m[0]]
done = set(); again = set()
if os.path.exists(A.o):
    for l in open(A.o):
        d = json.loads(l)
        if A.again and d['res'] in ('survived', 'harness'): again.add((d['file'], d['line'], d['n'], d['new']))
        done.add((d['file'], d['line'], d['n'], d['new']))
key = lambda m: (m[0], m[1] + 1, m[2], '\n'.join(m[3]))
done = {k for k in done if k not in again}
M = [m for m in M if key(m) not in done and (not A.again or key(m) in again)][:A.n]
print(len(M), 'to do,', len(done), 'done', flush=True)
if A.list:
    for m in M[:60]: print(os.path.basename(m[0]), m[1] + 1, m[2], m[3][0].strip())
    sys.exit()
def sh(c, cwd=None, t=900):
    p = subprocess.Popen(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 99, 'timeout'
PROPS = [('price_aggregator', 'P17,P17,P17,P14,P24,P25'), ('oracle/', 'P15,P16,P15,P16,P04'), ('liquidation.rs', 'P06,P07,P08,P07,P08,P15,P11,P25,P09'),
    ('strategy.rs', 'P19,P05,P12,P13,P22,P24,P11,P15,P10,P25,P09'), ('controller/src/lib.rs', 'P09,P14,P05,P10,P21,P13,P23,P08,P15,P24,P12,P25'), ('router.rs', 'P14,P18,P20,P24,P16,P20,P25'),
    ('config.rs', 'P20,P14,P16,P12'), ('views.rs', 'P04'), ('helpers/', 'P07,P06,P05,P04,P16,P15,P08,P20'), ('validation.rs', 'P05,P10,P11,P12,P13,P21,P22,P24,P09,P20'),
    ('controller/src/utils.rs', 'P05,P10,P11,P12,P13,P21,P22,P24,P18'), ('emode.rs', 'P12,P20,P05'), ('update.rs', 'P21,P02,P22,P23'),
    ('positions/', 'P21,P10,P11,P12,P13,P05,P22,P15,P23,P25'), ('liquidity_layer/src/view', 'P04'), ('liquidity_layer/src/lib.rs', 'P20,P03,P14,P20'), ('liquidity_layer', 'P25,P01,P02,P03,P21,P09,P18,P10,P19,P08,P07'),
    ('common/', 'P03,P01,P07,P16,P21'), ('controller/src/cache', 'P15,P05,P16,P21,P04')]
lock = threading.Lock()
def work(k, q):
    d = f'{H}/{k}'
    os.makedirs(d, exist_ok=True)
    sh(f'rsync -a --delete --exclude target --exclude .git /repo/ {d}/repo/ || (mkdir -p {d}/repo && cp -a /repo/. {d}/repo/)')
    sh(f'mkdir -p {d}/harness && cp -a /verif/harness/src /verif/harness/Cargo.* {d}/harness/ && cp /verif/known_findings.txt {d}/')
    sh(f"sed -i 's#\"/repo/#\"{d}/repo/#' {d}/harness/Cargo.toml")
    rc, o = sh('CARGO_NET_OFFLINE=true cargo build -j 2 --offline --quiet', d + '/harness')
    if rc: print(k, 'cannot build', o[-500:]); return
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f, i, n, new = m
        g = f.replace('/repo/', d + '/repo/', 1)
        orig = open(f).read()
        L = orig.split('\n')
        old = '\n'.join(L[i:i + n])
        L[i:i + n] = new
        open(g, 'w').write('\n'.join(L))
        t0 = time.time()
        rc, o = sh('CARGO_NET_OFFLINE=true cargo build -j 2 --offline --quiet', d + '/harness')
        if rc: res, why = 'nobuild', ''
        else:
            tb = time.time() - t0
            rc, o = sh(f'{d}/harness/target/debug/rtmon survey {A.t} {A.seed} {next(p for k, p in PROPS if k in f)} 2>/dev/null', d, A.t + 240)
            why = o.strip()[-600:]
            res = 'survived' if rc == 0 and 'NOTHING' in o and 'HARNESS' not in o else 'killed' if rc != 0 else 'harness'
        open(g, 'w').write(orig)
        with lock:
            open(A.o, 'a').write(json.dumps({'file': f, 'line': i + 1, 'n': n, 'new': '\n'.join(new), 'old': old, 'res': res, 'why': why, 't': round(time.time() - t0)}) + '\n')
            if res in ('survived', 'harness'): print(res, os.path.relpath(f, '/repo'), i + 1, '|', old.strip()[:120], '=>', new[0].strip()[:120], flush=True)
os.makedirs(H, exist_ok=True)
q = queue.Queue()
for m in M: q.put(m)
ts = [threading.Thread(target=work, args=(k, q)) for k in range(A.j)]
for t in ts: t.start()
for t in ts: t.join()
