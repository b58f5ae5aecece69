#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: confirm planted bugs in a scratch copy, keep them under seeded/.
SPEC defines BUGS: list of dict(id, property, edits=[(file, old, new)], main, needs, breaks)."""
import subprocess, sys, os, json, shutil, runpy, re
S = '/tmp/bugrepo'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
env = dict(os.environ, CARGO_HOME='/root/.cargo', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=S+'/target',
           RUSTUP_TOOLCHAIN='1.77.2-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
if not os.path.exists(S):
    sh(f'cp -a /repo {S}')
sh(f'git -C {S} fetch -q /repo && git -C {S} checkout -qf FETCH_HEAD; git -C {S} checkout -- .')
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('stable', base) if isinstance(base, dict) else base)
spec = runpy.run_path(sys.argv[1])
here = os.path.dirname(os.path.abspath(__file__))
for b in spec['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    sh(f'git -C {S} checkout -- .')
    d = f'/tmp/plant/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/main.rs','w').write(b['main'].lstrip())
    shutil.copy(here+'/demo.sh', d+'/demo.sh')
    ok = True
    r = sh(f'bash {d}/demo.sh', cwd=S)
    if r.returncode != 0: print(b['id'], 'DEMO FAILS UNCHANGED', r.returncode, r.stdout[-600:], r.stderr[-600:]); continue
    for f, old, new in b['edits']:
        p = f'{S}/{f}'; t = open(p).read()
        if t.count(old) != 1: print(b['id'], 'EDIT MATCHES', t.count(old), old[:60]); ok = False; break
        open(p,'w').write(t.replace(old, new))
    if not ok: continue
    diff = sh(f'git -C {S} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1', cwd=S, env=env)
    sh(f'rm -f /tmp/plant.json; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log')
    try: res = json.load(open('/tmp/plant.json'))
    except Exception as e: print(b['id'], 'NO RESULTS', e, open('/tmp/plant.log').read()[-800:]); continue
    passed = set(res.get('passed') or res.get('pass') or [])
    lost = stable - passed
    if lost: print(b['id'], 'TESTS FAIL', len(lost), sorted(lost)[:6]); continue
    r = sh(f'bash {d}/demo.sh', cwd=S)
    if r.returncode in (0, 2, 3): print(b['id'], 'DEMO DOES NOT FAIL', r.returncode, r.stdout[-500:]); continue
    json.dump({"property": b['property'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(d+'/meta.json','w'), indent=1)
    t = f'/verif/seeded/{b["id"]}'
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    print(b['id'], 'kept; demo exit', r.returncode, (r.stdout+r.stderr).strip()[-120:])
sh(f'git -C {S} checkout -- .')
