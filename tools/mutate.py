#!/usr/bin/env python3
"""mutate.py [-w WORKERS] [-o OUT] [-s SKIP/STRIDE] [FILE…]: tries small changes of each line of /repo/src against all the monitors.

For the developer: tells which changes no monitor sees. Works on copies under /tmp/mut; no check uses it."""
import sys, os, re, subprocess, shutil, json, time, threading, queue, random
A = sys.argv[1:]
W, OUT, files, stride = 4, '/tmp/mut/out.txt', [], (0, 1)
while A:
    a = A.pop(0)
    if a == '-w': W = int(A.pop(0))
    elif a == '-o': OUT = A.pop(0)
    elif a == '-s': x, y = A.pop(0).split('/'); stride = (int(x), int(y))
    else: files.append(a)
R = '/repo/src'
FIRST = {  # the monitors which are the most likely to see a change
 'graph/constraints': 'c22 c32 c30', 'graph/mod': 'c32 c17 c36', 'graph/propagation': 'c17 c18 c19 c20', 'graph/scheduler': 'c24 c25 c23 c19 c30', 'graph/storage': 'c21 c22 c30 c17',
 'iter/compl': 'c16 c33 c04', 'iter/excl': 'c16', 'iter/intersect': 'c16 c33 c03', 'iter/mod': 'c16 c05', 'iter/scaling': 'c16 c10', 'iter/transl': 'c16 c09', 'iter/union': 'c16 c33',
 'ops/compl': 'c04', 'ops/intersect': 'c03', 'ops/mod': 'c29 c05', 'ops/range': 'c05 c16', 'ops/scaling': 'c10 c11', 'ops/transl': 'c09 c11', 'ops/union': 'c02',
 'relns/contain': 'c07', 'relns/ordering': 'c08', 'relns/overlap': 'c07', 'seq/': 'c27', 'wins/convert': 'c13 c12', 'wins/format': 'c15 c30', 'wins/mod': 'c05 c36', 'wins/timeinterval': 'c29 c05 c06', 'wins/timeset': 'c01 c05 c06', 'wins/timestamp': 'c14 c31 c27 c11', 'wins/timevalue': 'c11 c12 c14 c13'}
BINS = ['c%02d' % i for i in range(1, 37) if i not in (34, 35)]
OPS = [(r' <= ', ' < '), (r' < ', ' <= '), (r' >= ', ' > '), (r'(?<!=) > ', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r' ?\+ ?(?=[\w(])', ' - '), (r'(?<=[\w)]) ?- ?(?=[\w(])', ' + '), (r'(?<=[ (])-(?=[\w(])', ''), (r'\.just_after\(\)', ''), (r'\.just_before\(\)', ''), (r'just_after', 'just_before'), (r'just_before', 'just_after'),
 (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'), (r'lower_bound', 'upper_bound'), (r'upper_bound', 'lower_bound'), (r'is_past_infinite', 'is_future_infinite'), (r'is_future_infinite', 'is_past_infinite'),
 (r'is_finite', 'is_future_infinite'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.rev\(\)', ''), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'),
 (r'!(?=[\w(])(?!\[)', ''), (r'\bio\b', 'jo'), (r'\bjo\b', 'io'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'from\(\)', 'to()'), (r'\bto\(\)', 'from()'), (r'Unchanged', 'Propagated'), (r'Propagated', 'Unchanged'), (r'Recovered', 'Fatal'), (r'Fatal', 'Recovered'),
 (r'WaitI', 'WaitJ'), (r'WaitJ', 'WaitI'), (r'OnlyI', 'OnlyJ'), (r'OnlyJ', 'OnlyI'), (r'empty\(\)', 'all()'), (r'all\(\)', 'empty()'), (r' \* ', ' + '), (r' / ', ' * '), (r'>>', '<<'), (r'saturating_', 'wrapping_'), (r'position\(', 'rposition('), (r'\bany\(', 'all('), (r'\.all\(', '.any('), (r'self\.(\w+)\b', r'self.\1'),
 (r'is_strictly_positive', 'is_positive'), (r'is_strictly_negative', 'is_negative'), (r'checked_add', 'wrapping_add'), (r'\bLess\b', 'Greater'), (r'strictly_positive', 'strictly_negative'), (r'\bsecs?\b', 'mins'), (r'1_000', '1_001')]
def mutants(f):
    t = open(f).read().split('\n'); com = False
    for n, l in enumerate(t):
        if '#[cfg(test)]' in l: break
        s = l.strip()
        if s.startswith('/*'): com = True
        if com:
            if '*/' in l: com = False
            continue
        if not s or s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', 'debug_assert', 'pub fn', 'fn ', 'impl', 'where', 'type ', 'pub trait', 'pub struct', 'struct', 'enum', 'TW', 'T:', 'macro')) and '{' not in s[3:]: continue
        code = l.split('//')[0]
        seen = set()
        for a, b in OPS:
            for m in re.finditer(a, code):
                if s.startswith(('impl', 'pub fn', 'fn ', 'unsafe fn', 'pub trait')) and '{' in code and m.start() < code.index('{'): continue
                if '<' in a or '>' in a:
                    pass
                new = code[:m.start()] + m.expand(b) + code[m.end():] + l[len(code):]
                if new != l and new not in seen: seen.add(new); yield n, l, new
        if s.endswith(';') and not s.startswith(('let', 'return', 'type', '}')): yield n, l, re.match(r' *', l)[0] + ';'
        if re.match(r'\s*(} else )?if .* \{$', code) and ' let ' not in code:
            for b in ('true', 'false'): yield n, l, re.sub(r'if .* \{$', 'if ' + b + ' {', code)
def sh(cmd, t=600, **kw):
    try: return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **kw)
    except subprocess.TimeoutExpired: return None
def worker(k, q, out, lock):
    d = f'/tmp/mut/w{k}'; os.makedirs(d, exist_ok=True)
    sh(f'rm -rf {d}/repo {d}/harness; cp -a /repo {d}/repo; mkdir {d}/harness; cp -r /verif/harness/Cargo.* /verif/harness/src {d}/harness/; sed -i s,/repo,{d}/repo, {d}/harness/Cargo.toml')
    h = d + '/harness'; env = dict(os.environ, CARGO_BUILD_JOBS='2')
    b = lambda bins: sh('cargo build --offline --profile chk --features serde --target-dir ../t -q ' + ' '.join('--bin ' + x for x in bins), cwd=h, env=env)
    p = b(BINS); assert p and p.returncode == 0, p and p.stdout[-800:]
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        path = f'{d}/repo/src/{f}'; t = open(path).read().split('\n'); t[n] = new; open(path, 'w').write('\n'.join(t))
        first = next((v.split() for kk, v in FIRST.items() if f.startswith(kk)), ['c05'])
        res, by = 'SURVIVED', ''
        try:
            c = sh('cargo check --offline -q --target-dir ../t', cwd=d + '/repo', env=env)
            if c is None or c.returncode: res = 'nocompile'
            else:
                for step in (first, [x for x in BINS if x not in first]):
                    p = b(step)
                    if p is None or p.returncode: res, by = 'killed', 'build'; break
                    for x in step:
                        r = sh(f'(ulimit -v 12000000; exec timeout -k 1 24 {d}/t/chk/{x} --secs {3 if x in first else 2} --threads 2 --cases 100000000 --out /dev/null)', t=25)
                        if r is None or r.returncode: res, by = 'killed', x; break
                    if res == 'killed': break
        finally:
            t[n] = old; open(path, 'w').write('\n'.join(t))
        with lock: out.write(f'{res} {by} {f}:{n+1}: {old.strip()}  ==>  {new.strip()}\n'); out.flush()
q = queue.Queue(); l = []
for r, _, fs in os.walk(R):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(r, f), R)
        if files and not any(p.startswith(x) for x in files): continue
        l += [(p, n, a, b) for n, a, b in mutants(os.path.join(r, f))]
random.Random(1).shuffle(l); l = l[stride[0]::stride[1]]
print(len(l), 'changes')
for x in l: q.put(x)
if os.environ.get('LIST'): sys.exit()
os.makedirs('/tmp/mut', exist_ok=True); out = open(OUT, 'a'); lock = threading.Lock()
ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
