#!/usr/bin/env python3
"""trybugs.py LAB [--all] [id ...]: run the checks against the planted changes in a scratch copy.
Without --all only the check of the change's own property; with it every check (the matrix)."""
import sys, os, json, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
lab = sys.argv[1]; allp = '--all' in sys.argv
S = mutate.VERIF + '/seeded'
ids = [a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(S))
mutate.setup(lab)
# the checker's sources as they are now
subprocess.run(['cp', '-a', mutate.VERIF + '/harness/src', lab + '/harness/'], check=True)
for f in ('KNOWN_FINDINGS.txt', 'properties.jsonl'): shutil.copy(f'{mutate.VERIF}/{f}', lab)
subprocess.run(['git', '-C', lab + '/repo', 'checkout', '-q', '--', '.'], check=True)
subprocess.run(['git', '-C', lab + '/repo', 'fetch', '-q', '/repo'], check=True)
subprocess.run(['git', '-C', lab + '/repo', 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTFLAGS='--cfg zksql_verif -Awarnings', CARGO_TARGET_DIR=lab + '/harness/target', ZKV_DIR=lab, VERIF_TIER='quick', VERIF_SEED='1', ZKV_SCALE=os.environ.get('LAB_SCALE', '100'))
env['PATH'] = '/root/.cargo/bin:' + env['PATH']
B = lab + '/harness/target'
for i in ids:
    subprocess.run(['git', '-C', lab + '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', lab + '/repo', 'apply', f'{S}/{i}/patch.diff'], check=True)
    own = json.load(open(f'{S}/{i}/meta.json'))['property']
    res = {}
    for prof in ('release', 'dbg'):
        subprocess.run(f'rm -rf {B}/{prof}/.fingerprint/zk_sql-* {B}/{prof}/.fingerprint/zkv-*', shell=True)
        rc, o = mutate.sh(f'cargo build --offline --profile {prof}', lab + '/harness', env, 900)
        if rc: print(i, prof, 'BUILD', o[-300:].replace('\n', ' ')); break
        for p in (mutate.ALL if allp else [own]):
            if p in res: continue
            if prof == 'dbg' and mutate.sh(f'{B}/release/zkv has-debug {p}', lab, env, 60)[0]: continue
            rc, o = mutate.sh(f'timeout -k 5 900 {B}/{prof}/zkv check {p} quick', lab, env, 950)
            if rc: res[p] = (prof, rc, next((x for x in o.split('\n') if 'VIOLATION' in x), o[-200:])[:160])
        if own in res and not allp: break
    print(i, own, 'CAUGHT' if res.get(own, (0, 0))[1] == 1 else 'MISSED', json.dumps({k: v[:2] for k, v in res.items()}), res.get(own, ('', '', ''))[2], flush=True)
subprocess.run(['git', '-C', lab + '/repo', 'checkout', '-q', '--', '.'], check=True)
