#!/usr/bin/env python3
"""Builds and validates planted bugs.

usage: plant.py make FILE.py [ID…]   specs in FILE.py (list BUGS), writes seeded/<id>/
       plant.py try FILE.py [ID…]    runs the check against changes which cannot be kept
       plant.py check [-t TIER] [ID…] runs the check of its property against each planted bug
       plant.py valid [ID…]           validates again (patch applies, tests pass, demo flips)
"""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
BASE = 'b9e358e'
DEMO = r'''#!/bin/bash
# run with cwd at the crate: exit 0 if the behaviour is right, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$d/main.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
chronologic = { path = "$repo"@FEAT@ }
@DEPS@
[profile.dev]
debug = false
overflow-checks = @OVF@
debug-assertions = @DBG@
[workspace]
T
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo run --offline -q
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    sh(f'cp -a /repo {d}/repo')
    return d

def tests_ok(r):
    env = dict(os.environ); env['CARGO_TARGET_DIR'] = r + '/target'
    p = sh('cargo check --workspace --offline && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', cwd=r, env=env)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(re.findall(r'^test (\S+) \.\.\. ok', p.stdout, re.M))
    missing = [b for b in base if b.split('::',1)[1] not in passed and b.split('src/lib.rs::')[-1] not in passed]
    return missing, p.stdout

def original_only(diff):
    # every removed line must come from the base commit
    bad = []
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'^@@ -(\d+)(?:,(\d+))? ', l)
        if m: ln = int(m[1]); continue
        if cur is None or l.startswith(('+++','diff','index','---')): continue
        if l.startswith('-'):
            b = sh(f'git -C /repo blame -s -L {ln},{ln} HEAD -- {cur}').stdout
            if not b.startswith('^' + BASE[:7]): bad.append((cur, ln, l, b.split()[0]))
            ln += 1
        elif l.startswith(' '): ln += 1
    n = sum(1 for l in diff.splitlines() if l.startswith('-') and not l.startswith('---'))
    if n == 0: bad.append('no original line changed')
    return bad

def demo(dirp, r):
    p = sh(f'bash {dirp}/demo.sh', cwd=r, timeout=300)
    return p.returncode, p.stdout

def validate(dirp):
    d = scratch(); r = d + '/repo'
    try:
        p = sh(f'git apply --check {dirp}/patch.diff', cwd=r)
        if p.returncode: return 'patch does not apply: ' + p.stdout
        diff = open(dirp + '/patch.diff').read()
        bad = original_only(diff)
        if bad: return f'not original lines: {bad}'
        c, o = demo(dirp, r)
        if c: return f'demo fails on clean tree ({c}): {o[-1500:]}'
        sh(f'git apply {dirp}/patch.diff', cwd=r)
        miss, o = tests_ok(r)
        if miss: return f'tests: {miss} {o[-1500:]}'
        c, o2 = demo(dirp, r)
        if c == 0: return 'demo passes with the patch'
        if '// (its types are what is shown)' not in open(dirp + '/main.rs').read() and ('error[E' in o2 or 'could not compile' in o2): return 'demo does not compile with patch: ' + o2[-1500:]
        return None
    finally:
        shutil.rmtree(d)

def make(path, ids):
    spec = importlib.util.spec_from_file_location('bugs', path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    res = {}
    for b in m.BUGS:
        if ids and b['id'] not in ids: continue
        if not ids and os.path.exists(os.path.join(S, b['id'], 'meta.json')): continue
        d = scratch(); r = d + '/repo'
        err = None
        for e in b['edits']:
            f, old, new = e[:3]; count = e[3] if len(e) > 3 else 1
            t = open(f'{r}/{f}').read()
            if t.count(old) != count:
                err = f'{f}: {t.count(old)} occurrences of {old!r}'; break
            open(f'{r}/{f}', 'w').write(t.replace(old, new))
        if err is None:
            diff = sh('git diff', cwd=r).stdout
        shutil.rmtree(d)
        if err: print('BAD', b['id'], err); continue
        dirp = os.path.join(S, b['id']); os.makedirs(dirp, exist_ok=True)
        open(dirp + '/patch.diff', 'w').write(diff)
        feat = ', features = ["serde"]' if b.get('serde') else ''
        deps = 'serde_json = "1"\nbincode = "1.3"' if b.get('serde') else ''
        ds = DEMO.replace('@FEAT@', feat).replace('@DEPS@', deps + b.get('deps', '')).replace('@OVF@', b.get('ovf', 'true')).replace('@DBG@', b.get('dbg', 'true'))
        open(dirp + '/demo.sh', 'w').write(ds)
        pre = '#![allow(unused)]\nuse chronologic::*;\nuse chronologic::iter::*;\nuse chronologic::graph::*;\n' + \
              'fn v(t: i64) -> TimeValue { TimeValue::from_ticks(t) }\nfn d(t: i64) -> Timestamp { Timestamp::from_origin(v(t)) }\n' + \
              'fn iv(a: i64, b: i64) -> TimeSpan { TimeInterval::new(v(a), v(b)) }\nfn id(a: i64, b: i64) -> TimeSlot { TimeInterval::new(d(a), d(b)) }\n' + \
              'fn sv(l: &[(i64,i64)]) -> TimeSpans { l.iter().map(|&(a,b)| iv(a,b)).collect() }\nfn sd(l: &[(i64,i64)]) -> TimeSlots { l.iter().map(|&(a,b)| id(a,b)).collect() }\n'
        open(dirp + '/main.rs', 'w').write(b['main'] if b.get('raw') else pre + 'fn main() {\n' + b['main'].strip('\n') + '\n}\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dirp + '/meta.json', 'w'), indent=1)
        e = validate(dirp)
        if e:
            print('BAD', b['id'], e); shutil.rmtree(dirp)
        else: print('ok ', b['id'], flush=True)

def check(ids, tier='quick'):
    out = []
    assert not sh('git -C /repo status --short').stdout.strip()
    for i in sorted(os.listdir(S)):
        if ids and i not in ids: continue
        dirp = os.path.join(S, i); p = json.load(open(dirp + '/meta.json'))['property']
        sh(f'git -C /repo apply {dirp}/patch.diff')
        try:
            t = time.time()
            r = sh(f'python3 {V}/run.py {p} {tier}', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            sh('git -C /repo checkout -- .')
        hit = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
        print('CAUGHT' if hit else f'MISSED({r.returncode})', i, p, f'{time.time()-t:.0f}s', flush=True)
        if not hit: print(r.stdout[-800:])
def attempt(path, ids):
    """tries changes of a spec file which cannot be kept (they touch lines of a fix, or only add lines)"""
    assert not sh('git -C /repo status --short').stdout.strip()
    spec = importlib.util.spec_from_file_location('bugs', path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if (ids and b['id'] not in ids) or (not ids and os.path.exists(os.path.join(S, b['id'], 'meta.json'))): continue
        try:
            for f, old, new, *_ in b['edits']:
                t = open(f'/repo/{f}').read()
                assert old in t, (b['id'], old)
                open(f'/repo/{f}', 'w').write(t.replace(old, new))
            r = sh(f'python3 {V}/run.py {b["property"]} quick', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            sh('git -C /repo checkout -- .')
        hit = r.returncode == 1 and f'VIOLATION property={b["property"]}' in r.stdout
        print('CAUGHT' if hit else f'MISSED({r.returncode})', b['id'], '' if hit else r.stdout[-1500:], flush=True)
a = sys.argv[1:]
if a[0] == 'make': make(a[1], a[2:])
elif a[0] == 'try': attempt(a[1], a[2:])
elif a[0] == 'check':
    tier = 'quick'
    if a[1:2] == ['-t']: tier = a[2]; a = [a[0]] + a[3:]
    check(a[1:], tier)
elif a[0] == 'valid':
    for i in sorted(os.listdir(S)):
        if a[1:] and i not in a[1:]: continue
        e = validate(os.path.join(S, i)); print('ok ' if not e else 'BAD', i, e or '', flush=True)
