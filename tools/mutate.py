#!/usr/bin/env python3
"""Systematic mutation sweep: every single-token change of /repo/src that builds and passes the stable tests is
run through all quick checks; prints the mutants no check reports.   mutate.py WORKERS OUT.jsonl [FILE...]"""
import sys, re, os, json, subprocess, shutil, threading, queue, random
W, OUT, FILES = int(sys.argv[1]), sys.argv[2], sys.argv[3:] or ['crc.rs', 'input.rs', 'metadata.rs', 'lib.rs', 'frame.rs', 'subframe.rs', 'error.rs']
ROOT = '/tmp/mut'
NCPU = os.cpu_count()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
FIRST = {'crc.rs': ['C03', 'C01', 'C18'], 'input.rs': ['C19', 'C18', 'C05', 'C01'], 'metadata.rs': ['C13', 'C12', 'C15', 'C14', 'C17'], 'lib.rs': ['C21', 'C08', 'C15', 'C14', 'C16'], 'frame.rs': ['C10', 'C08', 'C09', 'C01', 'C11'], 'subframe.rs': ['C01', 'C11', 'C02'], 'error.rs': ['C06', 'C04']}
HEAVY = ['C02', 'C20', 'C17', 'C07', 'C18', 'C19'] # only where they are first choice
LIGHT = ['C%02d' % i for i in (4, 9, 21, 22, 5, 6, 10, 11, 12, 13, 14, 15, 16, 8, 1, 3, 18, 7, 17, 19, 20, 2)]
SKIP = {'subframe.rs': 'C12 C13 C14 C15 C16 C18 C19 C20'.split(), 'frame.rs': 'C12 C13 C14 C15 C16 C18 C19'.split(), 'crc.rs': 'C12 C13 C14 C15 C16'.split(), 'metadata.rs': 'C01 C03 C08 C09 C10 C11 C18 C19 C22'.split(), 'lib.rs': 'C18 C19'.split()}

def code_spans(src):
    """Character ranges that are code: outside comments, strings, attributes and tests."""
    end = len(src)
    m = re.search(r'^#\[(test|cfg\(test\)|bench)\]', src, re.M)
    # Tests are interleaved in this code base: blank out each test function instead.
    mask = bytearray(b'\1' * end)
    def blank(a, b):
        for i in range(a, b): mask[i] = 0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|#!?\[[^\]]*\]', src, re.S): blank(*m.span())
    for m in re.finditer(r'^#\[test\]|^#\[bench\]|^#\[cfg\(test\)\]', src, re.M):
        i = src.index('{', m.end()) if '{' in src[m.end():] else end
        semi = src.find(';', m.end())
        if semi != -1 and semi < i: blank(m.start(), semi); continue
        d = 0
        for j in range(i, end):
            if src[j] == '{': d += 1
            elif src[j] == '}':
                d -= 1
                if d == 0: break
        blank(m.start(), j + 1)
    return mask

def mutants(f):
    src = open('/repo/src/' + f).read()
    mask = code_spans(src)
    out = []
    def add(a, b, new):
        if all(mask[a:b]) and src[a:b] != new: out.append((f, a, b, new))
    for m in re.finditer(r'(?<=\s)(<=|>=|==|!=|<<|>>|&&|\|\||<|>|\+|-|\*|/|%|&|\||\^|\+=|-=|\|=|\^=|<<=|>>=)(?=\s)', src):
        o = m.group(1)
        for n in {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!=', '<=', '>='], '!=': ['=='], '+': ['-', '|'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '&': ['|'], '|': ['&', '^'], '^': ['|'], '<<': ['>>'], '>>': ['<<'], '&&': ['||'], '||': ['&&'], '+=': ['-=', '='], '-=': ['+=', '='], '|=': ['='], '^=': ['|='], '<<=': ['='], '>>=': ['=']}.get(o, []):
            add(m.start(1), m.end(1), n)
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?=(?:_?[ui](?:8|16|32|64|size))?\b)', src):
        t = m.group(1)
        try: v = int(t.replace('_', ''), 0)
        except ValueError: continue
        if src[max(0, m.start() - 1)] in "'": continue
        line = src[src.rfind('\n', 0, m.start()) + 1:m.start()]
        dense = f == 'crc.rs' and line.lstrip()[:2].isdigit() or f == 'crc.rs' and re.match(r'\s*0x', line + t)
        if dense and m.start() % 16: continue
        for n in ([v ^ 1] if dense else sorted({v + 1, v - 1, v * 2} - {v})):
            if n >= 0: add(m.start(1), m.end(1), str(n) if not t.startswith('0x') else hex(n))
    for m in re.finditer(r'\b(true|false)\b', src): add(m.start(), m.end(), 'false' if m.group() == 'true' else 'true')
    for m in re.finditer(r'\bif (?!let\b)([^{}]*?) \{', src):
        add(m.start(1), m.end(1), 'false'); add(m.start(1), m.end(1), 'true')
    for m in re.finditer(r'\b(u8|u16|u32|i32|i64|u64|i8|i16)\b', src):
        if src[max(0, m.start() - 3):m.start()] == 'as ':
            for n in {'u8': ['i8'], 'u16': ['u8', 'i16'], 'u32': ['u16', 'i32'], 'i32': ['i16'], 'i64': ['i32'], 'u64': ['u32'], 'i16': ['u16'], 'i8': ['u8']}[m.group()]:
                # keep the type: cast through the narrower one
                add(m.start(), m.end(), n + ' as ' + m.group())
    # statements that can be dropped
    for m in re.finditer(r'^[ \t]+(?!let |return |pub |use |extern |type |const |static |mod )[A-Za-z_*][^\n;{}]*;[ \t]*$', src, re.M):
        s = m.group().strip()
        if s.startswith('try!(') or '=' in s or '(' in s: add(m.start() + len(m.group()) - len(m.group().lstrip()), m.end(), ';' if False else '{}')
    for m in re.finditer(r'^[ \t]+(return [^\n;{}]*;|continue;|break;)', src, re.M): add(m.start(1), m.end(1), '{}')
    for m in re.finditer(r'\.(cloned|rev|saturating_sub|saturating_add|wrapping_add|wrapping_sub|checked_add|min|max|skip|take)\(', src):
        n = {'saturating_sub': 'wrapping_sub', 'saturating_add': 'wrapping_add', 'wrapping_add': 'wrapping_sub', 'wrapping_sub': 'wrapping_add', 'min': 'max', 'max': 'min', 'skip': 'take', 'take': 'skip'}.get(m.group(1))
        if n: add(m.start(1), m.end(1), n)
    return src, out

def worker(k, q, lock):
    base = '%s/w%d' % (ROOT, k)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/verif')
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    shutil.rmtree(base + '/repo/target', ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'archive', '--format=tar', '-o', base + '/x.tar', 'HEAD'], check=True)
    subprocess.run('tar xf x.tar -C repo', shell=True, cwd=base, check=True)
    subprocess.run('cd /verif && cp -r check mc/src mc/Cargo.toml mc/Cargo.lock known_findings.jsonl properties.jsonl --parents %s/verif; rm -rf %s/verif/mc/target' % (base, base), shell=True)
    subprocess.run(['sed', '-i', 's#/repo#%s/repo#' % base, base + '/verif/mc/Cargo.toml', base + '/verif/check'], check=True)
    subprocess.run(['sed', '-i', 's/^incremental = false/incremental = true/', base + '/verif/mc/Cargo.toml'], check=True)
    subprocess.run(['sed', '-i', '/cargo clean/d', base + '/verif/check'], check=True)
    env = dict(os.environ, CARGO_TARGET_DIR=base + '/target', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', VERIF_SEED='1', VERIF_TIER='quick', CARGO_PROFILE_DEV_DEBUG='0', CARGO_BUILD_JOBS='3')
    def run(cmd, cwd, t):
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, start_new_session=True)
            return p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e:
            subprocess.run(['pkill', '-KILL', '-f', base + '/'])
            return 124, ''
    while True:
        try: f, a, b, new = q.get_nowait()
        except queue.Empty: return
        src = open('/repo/src/' + f).read()
        line = src.count('\n', 0, a) + 1
        ls = src.rfind('\n', 0, a) + 1
        rec = dict(file=f, line=line, a=a, b=b, old=src[a:b], new=new, text=src[ls:src.find('\n', a)].strip()[:160])
        open(base + '/repo/src/' + f, 'w').write(src[:a] + new + src[b:])
        rc, o = run(['cargo', 'check', '--offline', '--locked'], base + '/repo', 120)
        if rc: rec['res'] = 'nobuild'
        else:
            def tests(extra, stable):
                rc, o = run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--locked'] + extra + ['--', '--test-threads', '2'], base + '/repo', 120)
                open(base + '/repo/target_log', 'w').write(o)
                run(['python3', '/opt/vp/results.py', base + '/res.json', 'cargo:' + base + '/repo/target_log'], base + '/repo', 60)
                try: return rc, stable - set(json.load(open(base + '/res.json')).get('passed', []))
                except Exception as e: return rc, stable
            rc, bad = tests(['--lib', '--tests'], {x for x in STABLE if not x.startswith('doc:')})
            if rc != 124 and not bad: rc, bad = tests(['--doc'], {x for x in STABLE if x.startswith('doc:')})
            if rc == 124: rec['res'] = 'tests-hang'
            else:
                if bad: rec['res'] = 'tests'; rec['by'] = sorted(bad)[:2]
                else:
                    order = FIRST.get(f, []) + [c for c in LIGHT if c not in FIRST.get(f, []) and c not in SKIP.get(f, []) and c not in HEAVY]
                    rec['res'] = 'SURVIVES'; rec['odd'] = []
                    for c in order:
                        rc, o = run(['taskset', '-c', '%d,%d' % (k % NCPU, (k + NCPU // 2) % NCPU), base + '/verif/check', c, 'quick'], base + '/verif', 600)
                        if rc == 1 and 'VIOLATION property=' + c in o: rec['res'] = 'caught'; rec['by'] = c; break
                        if rc: rec['odd'].append((c, rc, o[-200:]))
                        if 'does not build' in o: break
        open(base + '/repo/src/' + f, 'w').write(src)
        with lock:
            with open(OUT, 'a') as g: g.write(json.dumps(rec) + '\n')

if __name__ == '__main__':
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l); done.add((r['file'], r['a'], r['b'], r['new']))
    todo = []
    for f in FILES: todo += [m for m in mutants(f)[1] if m not in done]
    # Mostly equivalent: conditions that only assert, sign changes of casts, exclusive for inclusive or.
    for f in FILES:
        src = open('/repo/src/' + f).read()
        line = lambda m: src[src.rfind('\n', 0, m[1]) + 1:src.find('\n', m[1])]
        todo = [m for m in todo if m[0] != f or not ('debug_assert' in line(m) or m[3].startswith(('i32 as u', 'i16 as u', 'i8 as u')) or (src[m[1]:m[2]], m[3]) == ('|', '^'))]
    random.Random(1).shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    if W == 0: sys.exit()
    q = queue.Queue()
    for m in todo: q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, lock)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
