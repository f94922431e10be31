#!/usr/bin/env python3
# catch.py [ID...]: runs each planted change's own check on a scratch copy of /repo carrying it; development only.
import glob, json, os, re, subprocess, sys, time
B = '/tmp/catch'; S = B + '/repo'; H = B + '/harness'
os.makedirs(B + '/vm/evidence', exist_ok=True)
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
if not os.path.isdir(S): sh(f'git clone -q /repo {S}')
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
sh(f'rm -rf {H}; cp -a /verif/harness {H}')
t = open(H + '/Cargo.toml').read(); open(H + '/Cargo.toml', 'w').write(t.replace('/repo/', S + '/'))
for i in ids:
    p = json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
    sh(f'cd {S} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/{i}/patch.diff')
    sdk = p in ('C21', 'C22')
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.76-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=B + '/t' + ('s' if sdk else ''), VMON_DIR=B + '/vm', VERIF_SEED='1', VERIF_TIER='quick')
    if sdk: env['RUSTFLAGS'] = '--cfg verif_hooks'
    f = 'c19,c20,sdkhelp,sdkliq,steps' if sdk else 'c19,c20,steps'
    b = subprocess.run(f'cargo build --offline -q --features {f}', shell=True, cwd=H, env=env, capture_output=True, text=True)
    if b.returncode: print(i, p, 'BUILD', b.stderr[-400:], flush=True); continue
    t0 = time.time()
    r = subprocess.run([env['CARGO_TARGET_DIR'] + '/debug/vmon', 'check', p], env=env, capture_output=True, text=True, cwd=B + '/vm')
    m = re.search(r'(\d+) of \d+ cases', r.stdout)
    print(i, p, 'caught' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else f'MISSED rc={r.returncode}', (m.group(1) + ' cases') if m else '', f'{time.time()-t0:.1f}s', flush=True)
