#!/usr/bin/env python3
"""Measures the checks: makes small mechanical changes to a copy of /repo, keeps those that still
compile and pass the stable tests, and runs all quick checks on each until one reports it.

  mutate.py list DIR               write DIR/mutants.json
  mutate.py filter DIR [WORKERS]   build and test each of them   -> DIR/alive.txt
  mutate.py check DIR              run the checks on the living  -> DIR/killed.txt, DIR/survived.txt

DIR lies outside /repo and /verif.  No check uses this."""
import json, os, re, subprocess, sys, shutil, threading, queue, time, signal

REPO = '/repo'
D = os.path.abspath(sys.argv[2])

def sources():
    for base, _, names in os.walk(REPO + '/src'):
        for n in sorted(names):
            if n.endswith('.rs'):
                yield os.path.relpath(os.path.join(base, n), REPO)

def swap(pat, repl):
    return (re.compile(pat), repl)

RULES = [
    swap(r' == ', ' != '), swap(r' != ', ' == '),
    swap(r' < ', ' <= '), swap(r' < ', ' >= '), swap(r' <= ', ' < '), swap(r' > ', ' >= '), swap(r' > ', ' <= '), swap(r' >= ', ' > '), swap(r' >= ', ' < '),
    swap(r' \+ ', ' - '), swap(r' - ', ' + '), swap(r' \* ', ' + '), swap(r' / ', ' * '), swap(r' % ', ' / '),
    swap(r' && ', ' || '), swap(r' \|\| ', ' && '),
    swap(r' & ', ' | '), swap(r' \| ', ' & '), swap(r' \| ', ' ^ '), swap(r' \^ ', ' | '), swap(r' << ', ' >> '), swap(r' >> ', ' << '),
    swap(r' \+= ', ' -= '), swap(r' -= ', ' += '), swap(r' \|= ', ' &= '), swap(r' &= ', ' |= '), swap(r' \|= ', ' = '), swap(r' >>= ', ' <<= '), swap(r' <<= ', ' >>= '),
    swap(r'\btrue\b', 'false'), swap(r'\bfalse\b', 'true'),
    swap(r'\.is_some\(\)', '.is_none()'), swap(r'\.is_none\(\)', '.is_some()'), swap(r'\.is_ok\(\)', '.is_err()'), swap(r'\.is_err\(\)', '.is_ok()'),
    swap(r'\bbreak;', 'continue;'), swap(r'\bcontinue;', 'break;'),
    swap(r'\.\.=', '..'), swap(r'(?<=[\w)\]])\.\.(?=[\w(])', '..='),
    swap(r'\.rev\(\)', ''), swap(r'\.min\(', '.max('), swap(r'\.max\(', '.min('),
    swap(r'wrapping_', 'saturating_'), swap(r'overflowing_add', 'overflowing_sub'), swap(r'overflowing_sub', 'overflowing_add'),
    swap(r'checked_add', 'checked_sub'), swap(r'checked_sub', 'checked_add'), swap(r'\.starts_with\(', '.ends_with('),
    swap(r'\.any\(', '.all('), swap(r'\.all\(', '.any('), swap(r'count_ones', 'count_zeros'), swap(r'count_zeros', 'count_ones'),
    swap(r'\bif (?!let\b)([^{}]+) \{', r'if true || \1 {'), swap(r'\bif (?!let\b)([^{}]+) \{', r'if false && (\1) {'),
    swap(r'\bwhile (?!let\b)([^{}]+) \{', r'while false && (\1) {'),
    swap(r'\bif (?!let\b)!', 'if '), swap(r'\bif (?!let\b|!)(\w[\w.]*\([^{}]*\)) \{', r'if !\1 {'),
    swap(r'first_host', 'last_host'), swap(r'last_host', 'first_host'), swap(r'base_addr\(\)', 'subnet_mask()'), swap(r'subnet_mask\(\)', 'base_addr()'), swap(r'subnet_mask\(\)', 'cisco_wildcard()'), swap(r'cisco_wildcard\(\)', 'subnet_mask()'),
    swap(r'last_addr\(\)', 'base_addr()'), swap(r'base_addr\(\)', 'last_addr()'),
    swap(r'is_superset_of', 'intersects'), swap(r'intersects', 'is_superset_of'), swap(r'is_superset_of', 'is_subset_of'), swap(r'is_subset_of', 'is_superset_of'),
    swap(r'add_addr', 'subtract_addr'), swap(r'subtract_addr', 'add_addr'), swap(r'bitwise_and', 'bitwise_or'), swap(r'bitwise_or', 'bitwise_and'), swap(r'bitwise_xor', 'bitwise_or'), swap(r'\.bitwise_negate\(\)', ''),
    swap(r'add_offset\((\w+)\)', r'subtract_offset(\1)'), swap(r'subtract_offset\((\w+)\)', r'add_offset(\1)'),
    swap(r'\.sort_unstable\(\);|\.sort\(\);|\.dedup\(\);|\.reverse\(\);', ';'), swap(r'HashSet', 'BTreeSet'), swap(r'\?;', ';'),
    swap(r'\.cloned\(\)|\.skip\(1\)', ''), swap(r'Ok\(0\)', 'Ok(1)'), swap(r'Some\((\w+)\)$', 'None'),
    swap(r'eprintln!', 'println!'), swap(r'(?<!e)println!', 'eprintln!'), swap(r'println!', 'print!'),
    swap(r'trailing', 'leading'), swap(r'leading', 'trailing'),
    swap(r'\.or\(', '.and('), swap(r'"(\w+)"', r'"\1x"'), swap(r'unwrap_or\(0\)', 'unwrap_or(1)'),
]

def number(m):
    n = m.group(0)
    base = 16 if n.startswith('0x') else 10
    try:
        v = int(n.replace('_', ''), base)
    except ValueError:
        return []
    out = [v + 1, v - 1] if v > 0 else [v + 1]
    if v > 8:
        out += [v * 2, v // 2]
    return [hex(x) if base == 16 else str(x) for x in out]

def mutants():
    seen = set()
    for f in sources():
        lines = open(f'{REPO}/{f}').read().split('\n')
        for i, l in enumerate(lines):
            if '#[cfg(test)]' in l:
                break
            code = l.split('//')[0] if '"' not in l else l
            if not code.strip() or l.strip().startswith('//') or l.strip().startswith('use ') or l.strip().startswith('#') or 'ripcalc_mc' in l:
                continue
            new = []
            for pat, repl in RULES:
                for m in pat.finditer(code):
                    new.append(code[:m.start()] + m.expand(repl) + code[m.end():])
            for m in re.finditer(r'(?<![\w."])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w"])', code):
                for r in number(m):
                    new.append(code[:m.start()] + r + code[m.end():])
            t = code.strip()
            if t.endswith(';') and not t.startswith(('let ', 'return', '}', 'break', 'continue', 'pub ', 'const ')):
                new.append('')
            if t.endswith(',') and '=>' not in t and ':' not in t:
                new.append('')
            for n in new:
                if n != code and (f, i, n) not in seen:
                    seen.add((f, i, n))
                    yield {'file': f, 'line': i + 1, 'old': l, 'new': n}

def env():
    e = dict(os.environ)
    e.update(RUST_BACKTRACE='0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_PROFILE_DEV_DEBUG='0', CARGO_BUILD_JOBS='1')
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS'):
        e.pop(k, None)
    return e

def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, ''

def apply(root, m):
    p = f"{root}/{m['file']}"
    lines = open(p).read().split('\n')
    assert lines[m['line'] - 1] == m['old']
    lines[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(lines))

def restore(root, m):
    shutil.copy(f"{REPO}/{m['file']}", f"{root}/{m['file']}")

if sys.argv[1] == 'list':
    os.makedirs(D, exist_ok=True)
    ms = list(mutants())
    json.dump(ms, open(D + '/mutants.json', 'w'))
    print(len(ms))
elif sys.argv[1] == 'filter':
    ms = json.load(open(D + '/mutants.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = queue.Queue()
    for i, m in enumerate(ms):
        q.put((i, m))
    lock = threading.Lock()
    counts = {'no build': 0, 'test fails': 0, 'alive': 0}
    out = open(D + '/alive.txt', 'w')
    def work(k):
        root = f'{D}/f{k}'
        if not os.path.exists(root):
            shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                return
            apply(root, m)
            rc, o = run(['cargo', 'test', '--workspace', '--no-run', '--offline'], root, 300)
            if rc != 0:
                what = 'no build'
            else:
                rc, o = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '4'], root, 60)
                what = 'alive' if rc == 0 else 'test fails'
            restore(root, m)
            with lock:
                counts[what] += 1
                if what == 'alive':
                    out.write(f'{i}\n')
                    out.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(sys.argv[3]) if len(sys.argv) > 3 else 8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(counts)
elif sys.argv[1] == 'check':
    ms = json.load(open(D + '/mutants.json'))
    # a fixed shuffle, the first of each line in front: a part of it is a sample
    alive = sorted((int(x) for x in open(D + '/alive.txt') if 'with_capacity' not in ms[int(x)]['old']), key=lambda i: (i * 7919) % 2633)
    lines, front, back = set(), [], []
    for i in alive:
        k = (ms[i]['file'], ms[i]['line'])
        (back if k in lines else front).append(i)
        lines.add(k)
    print(len(front), 'lines,', len(alive), 'mutants', flush=True)
    alive = front + back
    part, parts = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
    done = set()
    for n in ('killed', 'survived'):
        for p in range(parts):
            f = f'{D}/{n}.{p}'
            if os.path.exists(f):
                done |= {int(l.split()[0]) for l in open(f)}
    quick = os.environ.get('MUTATE_ALL') is None  # otherwise also those checks that are not about the file
    root, v = f'{D}/c{part}', f'{D}/v{part}'
    if not os.path.exists(root):
        shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
        os.makedirs(v)
        for x in ('build.sh', 'check.sh', 'explorer', 'inject', 'server', 'known_findings.txt', 'build'):
            subprocess.run(['cp', '-a', f'/verif/{x}', v + '/'], check=True)
    order = 'C18 C22 C01 C09 C10 C23 C07 C08 C02 C03 C13 C12 C11 C14 C19 C15 C05 C06 C04 C20 C16 C24 C17 C21'.split()
    allids = [f'C{i:02d}' for i in range(1, 60) if f'C{i:02d}' in open('/verif/MANIFEST.json').read()]
    order = [c for c in order if c in allids] + [c for c in allids if c not in order]
    for i in alive:
        if i % parts != part or i in done:
            continue
        m = ms[i]
        # the likely ones first
        first = {'derange': 'C04 C16 C18 C12', 'split': 'C05 C06 C29 C16 C18', 'minimize': 'C02 C03 C18 C16', 'enumerate': 'C01 C24 C18 C16', 'resize': 'C07 C08 C27 C18', 'show_net': 'C09 C10 C23 C18 C16', 'console': 'C10 C23 C30 C21 C17', 'addr': 'C14 C11 C12 C16', 'net': 'C15 C09 C13 C02', 'bit_manip': 'C19 C09 C16', 'cidr': 'C19 C13 C16', 'mod': 'C13 C12 C18 C22 C16', 'main': 'C22 C18 C30 C10 C16'}.get(os.path.basename(m['file'])[:-3], '').split()
        apply(root, m)
        verdict = None
        e = dict(env(), RIPCALC_REPO=root)
        for c in (first if quick else first + [c for c in order if c not in first]):
            p = subprocess.run([v + '/check.sh', c, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode != 0:
                verdict = f'{c} rc={p.returncode}'
                break
        restore(root, m)
        with open(f"{D}/{'killed' if verdict else 'survived'}.{part}", 'a') as f:
            f.write(f"{i} {verdict or ''} {m['file']}:{m['line']}: {m['old'].strip()} -> {m['new'].strip()}\n")
