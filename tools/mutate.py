#!/usr/bin/env python3
"""Mechanical mutants of /repo's non-test source, tried in a scratch copy.

usage: mutate.py gen OUT.json                 list the mutants
       mutate.py gen2 OUT.json                the same change made to prover and verifier
       mutate.py run LIST.json LAB LOG [k/n]  try them (LAB: scratch dir, created; k of n shares)

A mutant that does not compile or fails one of the stable tests is of no interest; one that
passes them is run through the checks at a reduced number of cases (ZKV_SCALE) until one
reports a violation.  Survivors are listed in LOG for reading by a human.
"""
import sys, os, re, json, random, subprocess, shutil, time

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('test.rs', 'errors.rs', 'prelude.rs', 'verif_hook.rs', 'src/lib.rs', 'util/mod.rs')

RULES = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'one\(\)', 'zero()'), (r'zero\(\)', 'one()'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'),
    (r'\bmax\(', 'min('), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
    (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'\.neg\(\)', ''),
    (r'add_poly\(', 'sub_poly('), (r'sub_poly\(', 'add_poly('), (r'add_comms\(', 'sub_comms('), (r'sub_comms\(', 'add_comms('),
    (r'\bif ([^{]+) \{', 'if false && (\\1) {'), (r'\bif ([^{]+) \{', 'if true || (\\1) {'),
    (r'\[i\]', '[0]'), (r'&&|\|\|', ''),
    (r'\.num_vars\(\)', '.num_vars() + 1'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'bag_a', 'bag_b'), (r'bag_b', 'bag_a'), (r'table_a', 'table_b'), (r'table_b', 'table_a'),
    (r'm_a', 'm_b'), (r'l_sel', 'r_sel'), (r'ma_bag', 'mb_bag'), (r'mb_bag', 'ma_bag'), (r'l_bag', 'r_bag'),
    (r'fxs', 'gxs'), (r'gxs', 'fxs'),
    (r'\.selector', '.poly'),
    (r'b"([a-z_ ]+)"', 'b"x"'),
]

def files():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', 'src'], capture_output=True, text=True).stdout.split()
    return [f for f in out if f.endswith('.rs') and not f.endswith(SKIP)]

def live_lines(text):
    """line numbers outside test modules, comments, uses and printing"""
    res, depth_skip = [], None
    lines = text.split('\n')
    depth, skip_at = 0, None
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): pend = True
        opens, closes = l.count('{'), l.count('}')
        if pend and 'mod ' in s and '{' in s and skip_at is None:
            skip_at = depth; pend = False
        depth += opens - closes
        if skip_at is not None:
            if depth <= skip_at: skip_at = None
            continue
        if not s or s.startswith(('//', 'use ', '#', 'mod ', 'pub mod', 'pub use', 'println', 'print!', 'impl', 'pub struct', 'pub trait')): continue
        if 'start_timer' in s or 'end_timer' in s or 'to_string()' in s or 'format!' in s or s.startswith('err_msg') or 'Error:' in s: continue
        if re.match(r'(pub |pub\(crate\) )?fn ', s) or s.endswith((': &[', )): continue
        res.append(i)
    return lines, res

def stmt_block(lines, i):
    """the lines of the call statement starting at i"""
    j, d = i, 0
    while j < len(lines) and j < i + 15:
        d += lines[j].count('(') - lines[j].count(')')
        if d <= 0 and lines[j].rstrip().endswith(';'): return j
        j += 1
    return None

def gen():
    out = []
    for f in files():
        text = open(f'{REPO}/{f}').read()
        lines, live = live_lines(text)
        for i in live:
            l = lines[i]; s = l.strip()
            code = re.sub(r'//.*', '', l)
            for pat, rep in RULES:
                ms = list(re.finditer(pat, code))
                for m in ms[:3]:
                    if '->' in code[max(0, m.start()-1):m.end()+1]: continue
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: out.append({'file': f, 'edits': [[i, i, new]], 'kind': f'{pat} -> {rep}'})
            # statement deletion
            if re.match(r'[A-Za-z_:<>, ]+(\.|::|\()', s) and not s.startswith(('let ', 'return', 'Ok', 'Err', 'pub ', 'fn ', 'for ', 'if ', 'while')):
                j = stmt_block(lines, i)
                if j is not None: out.append({'file': f, 'edits': [[i, j, '']], 'kind': 'delete'})
        # both sides at once: the k-th sub-argument / claim of prove and of verify
        calls = {'p': [], 'v': []}
        side = None
        for i in live if 'zksql_poly_iop' in f else []:
            pass
        if 'zksql_poly_iop' in f:
            side = None
            for i, l in enumerate(lines):
                m = re.search(r'fn (\w*)(prove|verify)\w*', l)
                if m: side = 'p' if m.group(2) == 'prove' else 'v'
                if i not in live or side is None: continue
                s = l.strip()
                if re.match(r'(\w+::<E, PCS>::(prove|verify)|\w+\.add_(zero|sum)check_claim|\w+IOP::(prove|verify))', s) and not s.startswith('Self'):
                    j = stmt_block(lines, i)
                    if j is not None: calls[side].append((i, j, re.sub(r'::(prove|verify).*|\(.*', '', s).split('.')[-1]))
            if len(calls['p']) == len(calls['v']) and all(a[2] == b[2] for a, b in zip(calls['p'], calls['v'])):
                for a, b in zip(calls['p'], calls['v']):
                    out.append({'file': f, 'edits': [[a[0], a[1], ''], [b[0], b[1], '']], 'kind': 'both sides: drop ' + a[2]})
    for n, m in enumerate(out): m['n'] = n
    return out

def norm(l):
    for a, b in (('_comms', '_poly'), ('add_comms', 'add_poly'), ('sub_comms', 'sub_poly'), ('mul_comms', 'mul_poly'), ('_comm', '_poly'), ('comms', 'polys'),
                 ('comm', 'poly'), ('verifier', 'prover'), ('verify', 'prove'), ('Comm', ''), ('.clone()', ''), ('_bag', ''), ('tracker', 't'), ('prover_', '')):
        l = l.replace(a, b)
    return re.sub(r'\s+', '', re.sub(r'//.*', '', l))

BOTH = [r'\.(mul|add|sub)_(poly|comms)\(&[^()]*(\([^()]*\)[^()]*)*\)', r'\.(mul|add)_scalar\([^()]*(\([^()]*\)[^()]*)*\)', r'(?<== )\w*tracker\.get_and_append_challenge\([^()]*\)\??(\.unwrap\(\))?',
        r'\b1\b', r'\b0\b', r'one\(\)', r'zero\(\)', r'\.selector', r'\bbag_a\b', r'\bbag_b\b', r'\btable_a\b', r'\bl_bag\b', r'\bm_bag\b', r'\br_bag\b', r'\bma_bag\b', r'\bmb_bag\b', r'_evals\[i\]']
BREP = {r'\b1\b': '2', r'\b0\b': '1', r'one\(\)': 'zero()', r'zero\(\)': 'one()', r'\.selector': '.poly', r'\bbag_a\b': 'bag_b', r'\bbag_b\b': 'bag_a', r'\btable_a\b': 'table_b', r'\bl_bag\b': 'm_bag',
        r'\bm_bag\b': 'r_bag', r'\br_bag\b': 'm_bag', r'\bma_bag\b': 'mb_bag', r'\bmb_bag\b': 'ma_bag', r'_evals\[i\]': '_evals[0]'}
def gen2():
    """the same change on both sides"""
    import difflib
    out = []
    for f in files():
        if 'zksql_poly_iop' not in f: continue
        lines, live = live_lines(open(f'{REPO}/{f}').read())
        side, by = None, {'p': [], 'v': []}
        for i, l in enumerate(lines):
            m = re.search(r'fn (\w*)(prove|verif)\w*', l)
            if m: side = 'p' if m.group(2) == 'prove' else 'v'
            if i in live and side: by[side].append(i)
        A, B = [norm(lines[i]) for i in by['p']], [norm(lines[i]) for i in by['v']]
        sm = difflib.SequenceMatcher(None, A, B, autojunk=False)
        pairs = []
        for tag, a0, a1, b0, b1 in sm.get_opcodes():
            if tag == 'equal' or (tag == 'replace' and a1 - a0 == b1 - b0): pairs += list(zip(by['p'][a0:a1], by['v'][b0:b1]))
        for i, j in pairs:
            for pat in BOTH:
                rep = BREP.get(pat, 'E::ScalarField::from(3u64)' if 'challenge' in pat else '')
                x, y = list(re.finditer(pat, lines[i])), list(re.finditer(pat, lines[j]))
                if len(x) != len(y): continue
                for m, n in zip(x, y):
                    out.append({'file': f, 'edits': [[i, i, lines[i][:m.start()] + rep + lines[i][m.end():]], [j, j, lines[j][:n.start()] + rep + lines[j][n.end():]]], 'kind': f'both: {m.group(0)} -> {rep}'})
    for n, m in enumerate(out): m['n'] = 100000 + n
    return out

REL = [('arithmetic/virtual', ['C02', 'C03', 'C01']), ('arithmetic', ['C01', 'C02', 'C09']), ('sum_check', ['C03', 'C04', 'C05']),
       ('zero_check', ['C05', 'C02']), ('multilinear_kzg/batching', ['C07', 'C11']), ('pcs_accumulator', ['C07', 'C11', 'C12']), ('multilinear_kzg', ['C06', 'C07']),
       ('pcs/', ['C06', 'C07']), ('transcript', ['C08', 'C04', 'C07']), ('tracker/', ['C09', 'C10', 'C11', 'C12', 'C08', 'C26']),
       ('bag_disjoint', ['C17', 'C25']), ('bag_eq', ['C13']), ('bag_sum', ['C13']), ('bag_multitool', ['C13', 'C14']), ('bag_incl', ['C14', 'C25']),
       ('bag_no_zeros', ['C24', 'C15']), ('selector_valid', ['C24']), ('bag_presc', ['C15']), ('bag_sort', ['C15', 'C16']), ('bag_supp', ['C16', 'C25']),
       ('set_disj', ['C17', 'C18']), ('set_', ['C18']), ('join_red', ['C19', 'C25']), ('cross', ['C20']), ('index', ['C21', 'C22']), ('final', ['C22', 'C25']),
       ('group_by', ['C23']), ('zksql_poly_iop/util', ['C25'])]
ALL = [f'C{i:02}' for i in range(1, 28)]

def order(f):
    r = []
    for k, v in REL:
        if k in f: r += [x for x in v if x not in r]
    return r + [x for x in ALL if x not in r]

def sh(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        subprocess.run(['pkill', '-f', cwd])
        return 99, 'timeout'

def setup(lab):
    if os.path.exists(lab + '/repo'): return
    os.makedirs(lab)
    subprocess.run(['cp', '-a', REPO, lab + '/repo'], check=True)
    shutil.copytree(VERIF + '/harness', lab + '/harness', ignore=shutil.ignore_patterns('target'))
    for f in ('KNOWN_FINDINGS.txt', 'properties.jsonl'):
        shutil.copy(f'{VERIF}/{f}', lab)
    c = lab + '/harness/Cargo.toml'
    t = open(c).read().replace('path = "/repo"', f'path = "{lab}/repo"')
    open(c, 'w').write(t)

def run(lst, lab, log, share):
    k, n = map(int, share.split('/'))
    muts = json.load(open(lst))
    done = set()
    if os.path.exists(log):
        done = {json.loads(l)['n'] for l in open(log)}
    setup(lab)
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    env['PATH'] = '/root/.cargo/bin:' + env['PATH']
    te = dict(env, CARGO_INCREMENTAL='1', CARGO_TARGET_DIR=lab + '/repo/target', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    he = dict(env, RUSTFLAGS='--cfg zksql_verif -Awarnings', CARGO_TARGET_DIR=lab + '/harness/target', CARGO_PROFILE_RELEASE_OPT_LEVEL=os.environ.get('LAB_OPT', '1'),
              ZKV_DIR=lab, VERIF_TIER='quick', VERIF_SEED='7', ZKV_SCALE=os.environ.get('LAB_SCALE', '15'))
    for m in muts:
        if m['n'] % n != k or m['n'] in done: continue
        f = f"{lab}/repo/{m['file']}"
        orig = open(f'{REPO}/{m["file"]}').read()
        lines = orig.split('\n')
        for a, b, new in sorted(m['edits'], reverse=True):
            lines[a:b + 1] = [new]
        open(f, 'w').write('\n'.join(lines))
        os.utime(f)
        t0 = time.time()
        res = {'n': m['n'], 'file': m['file'], 'line': m['edits'][0][0] + 1, 'kind': m['kind'], 'new': m['edits'][0][2].strip()}
        subprocess.run(f'rm -rf {lab}/repo/target/debug/.fingerprint/zk_sql-*', shell=True)
        rc, o = sh('cargo test --lib --no-run --offline', lab + '/repo', te, 300)
        if rc != 0: res['st'] = 'nocompile'
        else:
            rc, o = sh('timeout -k 5 120 cargo test --lib --offline -- --test-threads 8', lab + '/repo', te, 150)
            if rc != 0: res['st'] = 'tests'
            else:
                subprocess.run(f'rm -rf {lab}/harness/target/release/.fingerprint/zk_sql-* {lab}/harness/target/release/.fingerprint/zkv-*', shell=True)
                rc, o = sh('cargo build --offline --release', lab + '/harness', he, 600)
                if rc != 0: res['st'] = 'harness-nocompile'
                else:
                    res['st'] = 'SURVIVED'
                    for p in order(m['file']):
                        rc, o = sh(f'timeout -k 5 200 {lab}/harness/target/release/zkv check {p} quick', lab, he, 230)
                        if rc == 1:
                            res['st'] = 'caught'; res['by'] = p
                            res['msg'] = next((x for x in o.split('\n') if 'VIOLATION' in x), '')[:100]; break
                        if rc != 0:
                            res['st'] = f'odd exit {rc}'; res['by'] = p; res['msg'] = o[-300:]; break
        res['s'] = round(time.time() - t0)
        open(f, 'w').write(orig)
        with open(log, 'a') as g: g.write(json.dumps(res) + '\n')

if __name__ == '__main__':
    if sys.argv[1] in ('gen', 'gen2'):
        g = gen() if sys.argv[1] == 'gen' else gen2(); random.Random(5).shuffle(g)
        json.dump(g, open(sys.argv[2], 'w'))
        from collections import Counter
        print(len(g)); print(Counter(m['file'] for m in g).most_common(80))
        print(sum('both' in m['kind'] for m in g))
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else '0/1')
