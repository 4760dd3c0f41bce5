#!/usr/bin/env python3
"""tools/mutate.py N SEED [workers] [file-substring]: mutation campaign (development aid).

Draws N random one-place mutants of /repo's sources, keeps those that compile and pass the stable
tests in a scratch copy, and runs every property's simulation against them. Prints the survivors:
either equivalent changes or gaps in the checks. Everything happens under /tmp/mut.
RARE=1 draws instead mutants that misbehave only at one stack size, position or length; RARE=2 only
where two such conditions hold at once."""
import sys, os, re, random, subprocess, shutil, json, threading, queue
N, SEED = int(sys.argv[1]), int(sys.argv[2])
NW = int(sys.argv[3]) if len(sys.argv) > 3 else 8
ONLY = sys.argv[4] if len(sys.argv) > 4 else ''
ROOT = '/tmp/mut'
RUNS = int(os.environ.get('RUNS', '60000'))
PROPS = ['C03', 'C10', 'C08', 'C05', 'C01', 'C02', 'C04', 'C06', 'C07', 'C09', 'C11', 'C12', 'C13', 'C14', 'C16', 'C18', 'C17', 'C15', 'C20']
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
KNOWN = set()
for l in open('/verif/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('{'):
        k = json.loads(l)
        if k['status'] == 'finding':
            KNOWN |= set(k.get('sigs', []))

OPS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'(?<![-=<])>(?![>=])(?= )', ['>=', '<']), (r'(?<= )<(?= )', ['<=', '>']),
    (r'>=', ['>', '<']), (r'<=', ['<', '>']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
    (r'\+ 1\b', ['+ 2', '+ 0', '- 1']), (r'- 1\b', ['- 0', '- 2']), (r'\+ 2\b', ['+ 1', '+ 3']), (r'\+= 1\b', ['+= 2', '-= 1', '+= 0']), (r'-= 1\b', ['+= 1', '-= 0']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])(?<![a-z]!)', ['']),
    (r'pop_front', ['pop_back']), (r'pop_back', ['pop_front']), (r'push_back', ['push_front']), (r'push_front', ['push_back']),
    (r'\.rev\(\)', ['']), (r'\bfirst\b', ['last']), (r'\blast\b', ['first']), (r'last_mut', ['first_mut']), (r'\.back\(\)', ['.front()']), (r'\.front\(\)', ['.back()']), (r'back_mut', ['front_mut']), (r'front_mut', ['back_mut']),
    (r'is_empty\(\)', ['len() == 1', 'len() > 1']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']), (r'\breturn;', ['']),
    (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']),
    (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']), (r'\bNone\b', ['Some(Default::default())']),
    (r'\.take\(\)', ['.clone()']), (r'\.pop\(\)', ['.last()']), (r'\.clear\(\)', ['.pop()', '.truncate(1)']), (r'\.truncate\(', ['.resize_with(']), (r'\.nth\(', ['.skip(1).nth(']),
    (r'\.saturating_sub\(', ['.wrapping_sub(']), (r'\bif (?!let)(.*) \{$', ['if true {', 'if false {', r'if !(\1) {']), (r'\bwhile (?!let)(.*) \{$', ['while false {']),
    (r'\bSome\((.*)\)$', ['None']),
]

def sources():
    out = []
    for d, _, fs in os.walk('/repo/tree_iterators_rs/src'):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.rs') and f != 'examples.rs':
                out.append(os.path.relpath(p, '/repo'))
    return sorted(out)

CONDS = ['self.%s.len() == {K}' % n for n in ('traversal_stack', 'item_stack', 'traversal_queue', 'iterator_queue', 'path', 'right_stack', 'status_stack', 'into_iterator_stack', 'traversal_stack_bottom', 'traversal_stack_top',
                                              'old_traversal_queue', 'new_traversal_queue', 'current_path', 'pruned_at_each_depth', 'current_context.path', 'current_context.ancestors', 'tree_cache.children')] + [
    'self.path.last() == Some(&{K})', 'self.current_context.path.last() == Some(&{K})', 'self.current_path.last() == Some(&{K})', 'self.inner.current_path().len() == {K}', 'self.inner.current_path().last() == Some(&{K})',
    'self.current_path().len() == {K}', 'self.current_path().last() == Some(&{K})', 'self.inner.current_path().first() == Some(&{K})', 'self.current_context.path.first() == Some(&{K})', 'self.index == {K}', 'self.path_counter == {K}',
    'path.len() == {K}', 'paths.len() == {K}', 'folded_so_far.len() == {K}', 'keeping_stack.len() == {K}', 'inversion_stack.len() == {K}', 'self.children.len() == {K}', 'starting_depth == {K}']
KS = [2, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 130, 256, 300]

# RARE=2: two conditions at once, each of them ordinary
PAIR = os.environ.get('RARE') == '2'
KS2 = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]

def rare_mutants(rng):
    """The same places, wrong only under a rare condition."""
    all_ = []
    pick = lambda conds: ' && '.join(rng.choice(conds).format(K=rng.choice(KS if len(set(conds)) < 2 or not PAIR else KS2)) for _ in range(1 + PAIR))
    for f in sources():
        if ONLY and ONLY not in f:
            continue
        L = open('/repo/' + f).read().split('\n')
        text = '\n'.join(L)
        conds = [c for c in CONDS if re.search(r'\b' + re.escape(re.sub(r'^self\.', '', c).split('.')[0].split('(')[0].split(' ')[0]) + r'\b', text)]
        if not conds:
            continue
        for i, s in enumerate(L):
            t = s.strip()
            if not t or t.startswith(('//', '#', 'use ', 'pub ', 'pub(', 'mod ', 'impl', 'where', 'type ', 'trait', '*', 'struct', 'fn ', '<', 'panic!', '.', 'shrink')) or re.match(r'\w+(::\w+)*!\(|\w+::\w+[,<;]|[>}\])]', t) or 'shrink_to_fit' in t or 'fn ' in t:
                continue
            # a whole statement on one line (or up to four)
            for n in (1, 2, 3, 4):
                blk = L[i:i + n]
                b = '\n'.join(blk)
                if blk[-1].strip().endswith(';') and all(b.count(x) == b.count(y) for x, y in ('()', '[]', '{}')) and not t.startswith(('let ', 'return', 'break', 'continue', '}', '.', ')')):
                    if any(x.strip().endswith(';') for x in blk[:-1]):
                        break
                    c = pick(conds)
                    all_.append((f, i, ['if !(%s) {' % c] + blk + ['}'], t, n))
                    all_.append((f, i, ['if %s {' % c] + blk + ['}'] + blk, t, n))
                    break
            m = re.match(r'(\s*)((?:\} else )?(?:if|while)) (?!let)(.*) \{$', s)
            if m:
                for tpl in ('({0}) && !({1})', '({0}) || ({1})'):
                    c = pick(conds)
                    all_.append((f, i, [m.group(1) + m.group(2) + ' ' + tpl.format(m.group(3), c) + ' {'], t, 1))
            for m in re.finditer(r'(\+=? 1\b|wrapping_add\(1)', s):
                c = pick(conds)
                n_ = s[:m.end()] + ' + (%s) as usize' % c + s[m.end():]
                all_.append((f, i, [n_], t, 1))
            m = re.match(r'(\s*)(continue|break|return)(.*);$', s)
            if m:
                c = pick(conds)
                if m.group(2) == 'continue':
                    all_.append((f, i, [m.group(1) + 'if !(%s) { continue }' % c], t, 1))
    rng.shuffle(all_)
    return all_[:N]

def mutants(rng):
    if os.environ.get('RARE'):
        return rare_mutants(rng)
    all_ = []
    for f in sources():
        if ONLY and ONLY not in f:
            continue
        L = open('/repo/' + f).read().split('\n')
        intest = False
        for i, s in enumerate(L):
            t = s.strip()
            if t.startswith('#[cfg(test)]'):
                intest = True
            if intest or not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'type ', 'trait', 'pub trait', 'pub(crate) trait', '*', 'struct', 'pub struct', 'unsafe impl')):
                continue
            code = s.split('//')[0]
            if 'fn ' in code and '{' not in code:
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        n = code[:m.start()] + m.expand(r) + code[m.end():]
                        all_.append((f, i, [n], t))
            # statement deletion / swap
            if t.endswith(';') and not t.startswith(('let ', 'return', 'break', 'continue', 'fn ', 'pub ', 'type ', '}', '.', ')', 'const')):
                opens = code.count('(') - code.count(')')
                if opens == 0:
                    all_.append((f, i, [''], t))
                    nx = L[i + 1].strip() if i + 1 < len(L) else ''
                    if nx.endswith(';') and nx.count('(') == nx.count(')') and not nx.startswith(('}', '.', ')', 'let')):
                        all_.append((f, i, [L[i + 1], s], t))
                    all_.append((f, i, [s, s], t))
    rng.shuffle(all_)
    # spread over files: cap per (file, stripped line)
    seen, out = {}, []
    for m in all_:
        k = (m[3], tuple(x.strip() for x in m[2]))
        if seen.get(k, 0) >= 3:
            continue
        seen[k] = seen.get(k, 0) + 1
        out.append(m)
    return out[:N]

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_BUILD_JOBS='2')
    if env: e.update(env)
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True, executable='/bin/bash', errors='replace')
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''

lock = threading.Lock()
stats = {'build': 0, 'tests': 0, 'killed': 0, 'survived': 0}
kills = {}

def setup(w):
    d = f'{ROOT}/w{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/sim')
    subprocess.run(f'cp -a /verif/sim/src /verif/sim/Cargo.toml /verif/sim/Cargo.lock {d}/sim/', shell=True, check=True)
    t = open(d + '/sim/Cargo.toml').read().replace('/repo/', d + '/repo/').replace('opt-level = 2', 'opt-level = 1')
    open(d + '/sim/Cargo.toml', 'w').write(t)
    shutil.copy('/verif/known_findings.jsonl', d + '/known_findings.jsonl')
    r, o = sh('cargo build --release --offline', d + '/sim', 900)
    assert r == 0, o[-2000:]
    return d

def one(d, m):
    f, i, new, old, span = m if len(m) == 5 else m + (0,)
    p = d + '/repo/' + f
    src = open('/repo/' + f).read()
    L = src.split('\n')
    if span:
        L[i:i + span] = new
    elif len(new) == 2 and new[0] != new[1]:
        L[i:i + 2] = new
    else:
        L[i:i + 1] = new
    open(p, 'w').write('\n'.join(L))
    name = f'{f}:{i + 1}: {old}  =>  {" / ".join(x.strip() for x in new)}'
    try:
        r, o = sh('cargo build --lib --all-features --offline 2>&1 | tail -3; exit ${PIPESTATUS[0]}', d + '/repo/tree_iterators_rs', 120)
        if r != 0:
            with lock: stats['build'] += 1
            return
        r, o = sh('cargo test --workspace --all-features --offline --tests -- --test-threads 2', d + '/repo', 240)
        if r != 0:
            with lock: stats['tests'] += 1
            return
        r, o = sh('cargo build --release --offline', d + '/sim', 900)
        if r != 0:
            with lock:
                stats['build'] += 1
                print('SIM-BUILD', name, o[-300:], flush=True)
            return
        for p_ in PROPS:
            runs = 40 if p_ == 'C15' else max(2000, RUNS // 50) if p_ == 'C20' else RUNS // 3 if p_ in ('C17', 'C18') else RUNS
            r, o = sh(f'ulimit -v 8000000; sim/target/release/treesim worker {p_} 1 0 1 {runs} 64', d, 150)
            hit = None
            if r != 0:
                hit = f'exit {r}'
            for l in o.split('\n'):
                if l.startswith('V '):
                    s = json.loads(l[2:])['sig']
                    if s not in KNOWN:
                        hit = s
                        break
            if hit:
                with lock:
                    stats['killed'] += 1
                    kills[p_] = kills.get(p_, 0) + 1
                    print(f'killed {p_} [{hit}] {name}', flush=True)
                return
        r, o = sh('cargo test --workspace --all-features --offline --doc -- --test-threads 2', d + '/repo', 400)
        if r != 0:
            with lock: stats['tests'] += 1
            return
        with lock:
            stats['survived'] += 1
            print(f'SURVIVED {name}', flush=True)
    finally:
        open(p, 'w').write(src)

def work(w, q):
    d = setup(w)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        try:
            one(d, m)
        except Exception as e:
            print('ERROR', e, flush=True)
    shutil.rmtree(d, ignore_errors=True)

q = queue.Queue()
for m in mutants(random.Random(SEED)):
    q.put(m)
print(q.qsize(), 'mutants', flush=True)
ts = [threading.Thread(target=work, args=(w, q)) for w in range(NW)]
[t.start() for t in ts]
[t.join() for t in ts]
print(stats, kills)
